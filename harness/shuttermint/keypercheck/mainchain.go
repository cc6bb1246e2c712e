package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// ---- rendering of a main chain view, the common form of observation and reference ----

type viewLines map[string]string

func (v viewLines) String() string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s: %s\n", k, v[k])
	}
	return sb.String()
}

func renderConfig(c contract.BatchConfig, keypers []common.Address) string {
	return fmt.Sprintf("start=%d@%d thr=%d span=%d bsize=%d tsize=%d gas=%d fee=%x target=%x sel=%x timeout=%d keypers=%x", c.StartBatchIndex, c.StartBlockNumber,
		c.Threshold, c.BatchSpan, c.BatchSizeLimit, c.TransactionSizeLimit, c.TransactionGasLimit, c.FeeReceiver, c.TargetAddress, c.TargetFunctionSelector, c.ExecutionTimeout, keypers)
}

func renderMainChain(m *observe.MainChain) string {
	v := viewLines{}
	v["block"] = fmt.Sprint(m.CurrentBlock)
	v["halfsteps"] = fmt.Sprint(m.NumExecutionHalfSteps)
	for i, c := range m.BatchConfigs {
		v[fmt.Sprintf("config %03d", i)] = renderConfig(c, c.Keypers)
	}
	for i, b := range m.Batches {
		if b.BatchIndex != i {
			v[fmt.Sprintf("batch %06d wrong", i)] = fmt.Sprint(b.BatchIndex)
		}
		v[fmt.Sprintf("batch %06d", i)] = fmt.Sprintf("cipher=%x %x plain=%x %x", b.EncryptedTransactions, b.EncryptedBatchHash, b.PlainTransactions, b.PlainBatchHash)
	}
	for hs, r := range m.CipherExecutionReceipts {
		v[fmt.Sprintf("receipt %06d", hs)] = fmt.Sprintf("%+v", *r)
	}
	for a, d := range m.Deposits {
		if d.Amount == nil && !d.Slashed && d.WithdrawalDelayBlocks == 0 && d.WithdrawalRequestedBlock == 0 {
			continue
		}
		v[fmt.Sprintf("deposit %x", a)] = fmt.Sprintf("%x slashed=%v amount=%v delay=%d requested=%d", d.Account, d.Slashed, d.Amount, d.WithdrawalDelayBlocks, d.WithdrawalRequestedBlock)
	}
	for hs, a := range m.Accusations {
		v[fmt.Sprintf("accusation %06d", hs)] = fmt.Sprintf("%+v", *a)
	}
	return v.String()
}

// isEvent tells whether l is the named event; the bindings' parsers don't look.
func isEvent(l *types.Log, sig string) bool {
	return len(l.Topics) > 0 && l.Topics[0] == crypto.Keccak256Hash([]byte(sig))
}

func dedup(as []common.Address) (r []common.Address) {
	for _, a := range as {
		dup := false
		for _, b := range r {
			dup = dup || a == b
		}
		if !dup {
			r = append(r, a)
		}
	}
	return
}

// refView reads the view at block h from the chain itself: state at that block, all logs up to it.
func (w *ethWorld) refView(h uint64) string {
	v := viewLines{}
	v["block"] = fmt.Sprint(h)
	opts := &bind.CallOpts{BlockNumber: new(big.Int).SetUint64(h)}
	n, err := w.cfg.NumConfigs(opts)
	must(err)
	for i := uint64(0); i < n; i++ {
		c, err := w.cfg.ConfigForConfigIndex(opts, i)
		must(err)
		v[fmt.Sprintf("config %03d", i)] = renderConfig(c, dedup(c.Keypers))
	}
	hs, err := w.exe.NumExecutionHalfSteps(opts)
	must(err)
	v["halfsteps"] = fmt.Sprint(hs)
	w.mux.Lock()
	logs := w.logs(0, h, nil, nil)
	w.mux.Unlock()
	type bt struct {
		c, p   [][]byte
		ch, ph common.Hash
	}
	batches := map[uint64]*bt{}
	accs := map[uint64]*observe.Accusation{}
	for _, l := range logs {
		switch l.Address {
		case w.addr.batcher:
			if e, err := w.bat.ParseTransactionAdded(*l); err == nil && isEvent(l, "TransactionAdded(uint64,uint8,bytes,bytes32)") {
				b := batches[e.BatchIndex]
				if b == nil {
					b = &bt{}
					batches[e.BatchIndex] = b
				}
				if e.TransactionType == 0 {
					b.c, b.ch = append(b.c, e.Transaction), e.BatchHash
				} else {
					b.p, b.ph = append(b.p, e.Transaction), e.BatchHash
				}
			}
		case w.addr.deposit:
			if e, err := w.dep.ParseDepositChanged(*l); err == nil && isEvent(l, "DepositChanged(address,uint256,uint64,uint64,bool,bool)") {
				v[fmt.Sprintf("deposit %x", e.Account)] = fmt.Sprintf("%x slashed=%v amount=%v delay=%d requested=%d", e.Account, e.Slashed, e.Amount, e.WithdrawalDelayBlocks, e.WithdrawalRequestedBlock)
			}
		case w.addr.slasher:
			if e, err := w.slash.ParseAccused(*l); err == nil && isEvent(l, "Accused(uint64,address,address)") {
				accs[e.HalfStep] = &observe.Accusation{Executor: e.Executor, Accuser: e.Accuser, HalfStep: e.HalfStep, BlockNumber: l.BlockNumber}
			} else if e, err := w.slash.ParseAppealed(*l); err == nil && isEvent(l, "Appealed(uint64,address)") {
				accs[e.HalfStep].Appealed = true
			}
		}
	}
	for i, b := range batches {
		v[fmt.Sprintf("batch %06d", i)] = fmt.Sprintf("cipher=%x %x plain=%x %x", b.c, b.ch, b.p, b.ph)
	}
	for s, a := range accs {
		v[fmt.Sprintf("accusation %06d", s)] = fmt.Sprintf("%+v", *a)
	}
	for s := uint64(0); s < hs; s += 2 {
		r, err := w.exe.GetReceipt(opts, s)
		must(err)
		if r.Executed {
			v[fmt.Sprintf("receipt %06d", s)] = fmt.Sprintf("%+v", r)
		}
	}
	return v.String()
}

// ---- random activity on the contracts ----

type chainDriver struct {
	w       *ethWorld
	r       *rand.Rand
	keypers []*ecdsa.PrivateKey
	users   []*ecdsa.PrivateKey
	dupKeys bool
	uniq    int
	k       *vt.K
}

func newChainDriver(k *vt.K) *chainDriver {
	d := &chainDriver{r: k.R, k: k}
	var all []*ecdsa.PrivateKey
	for i := 0; i < 4; i++ {
		d.keypers = append(d.keypers, keyOf(fmt.Sprintf("keyper%d", i)))
		d.users = append(d.users, keyOf(fmt.Sprintf("user%d", i)))
	}
	all = append(append(all, d.keypers...), d.users...)
	d.w = newEthWorld(all...)
	for _, kp := range d.keypers {
		to := addrOf(kp)
		d.w.tx(d.w.owner, func(a *bind.TransactOpts) (*types.Transaction, error) {
			return d.w.token.Send(a, to, big.NewInt(1000), nil)
		})
	}
	d.w.mineOK()
	return d
}

func (d *chainDriver) headOpts() *bind.CallOpts { return &bind.CallOpts{} }

// schedule sets up and schedules a next config; mostly a valid one.
func (d *chainDriver) schedule() {
	n, err := d.w.cfg.NumConfigs(nil)
	must(err)
	last, err := d.w.cfg.ConfigForConfigIndex(nil, n-1)
	must(err)
	r := d.r
	next := d.w.head() + 1
	bc := contract.BatchConfig{BatchSpan: uint64(1 + r.Intn(6)), ExecutionTimeout: uint64(2 + r.Intn(8)), BatchSizeLimit: 100000, TransactionSizeLimit: uint64(1000 + r.Intn(10)),
		TransactionGasLimit: 100000, FeeReceiver: common.BigToAddress(big.NewInt(r.Int63())), TargetAddress: d.w.addr.target, TargetFunctionSelector: targetSelector()}
	if last.BatchSpan > 0 && r.Intn(4) == 0 {
		bc.BatchSpan = 0
	}
	for i, j := range r.Perm(len(d.keypers)) {
		if i < 1+r.Intn(4) {
			bc.Keypers = append(bc.Keypers, addrOf(d.keypers[j]))
		}
	}
	if d.dupKeys && r.Intn(2) == 0 {
		bc.Keypers = append(bc.Keypers, bc.Keypers[r.Intn(len(bc.Keypers))])
		bc.Keypers = append(bc.Keypers, addrOf(d.keypers[r.Intn(4)]))
	}
	bc.Threshold = uint64(r.Intn(len(dedup(bc.Keypers)) + 1))
	heads := uint64(simHeadsUp)
	if last.BatchSpan > heads {
		heads = last.BatchSpan
	}
	earliest := next + heads + 1 + uint64(r.Intn(4))
	if r.Intn(3) == 0 {
		earliest += uint64(6 + r.Intn(14)) // enough time to unschedule it
	}
	if last.BatchSpan == 0 {
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex, earliest
	} else {
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex+1, last.StartBlockNumber+last.BatchSpan
		for bc.StartBlockNumber < earliest {
			bc.StartBatchIndex++
			bc.StartBlockNumber += last.BatchSpan
		}
	}
	d.w.setNext(bc, true)
}

func decSigHash(batcher common.Address, batch uint64, cipher, plain []byte) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], batch)
	return crypto.Keccak256(append([]byte{0x19}, "dectx"...), batcher[:], b[:], cipher, plain)
}

// txsHash is the batch hash as the contracts compute it.
func txsHash(txs [][]byte) []byte {
	h := make([]byte, 32)
	for _, t := range txs {
		h = crypto.Keccak256(t, h)
	}
	return h
}

func (d *chainDriver) op() {
	w, r := d.w, d.r
	anyKey := append(append([]*ecdsa.PrivateKey{}, d.keypers...), d.users...)
	u := anyKey[r.Intn(len(anyKey))]
	hs, err := w.exe.NumExecutionHalfSteps(nil)
	must(err)
	bi := hs / 2
	ci, err := w.cfg.ConfigIndexForBatchIndex(nil, bi)
	must(err)
	bc, err := w.cfg.ConfigForConfigIndex(nil, ci)
	must(err)
	executor := func() (*ecdsa.PrivateKey, uint64) {
		if len(bc.Keypers) == 0 {
			return u, 0
		}
		i := r.Intn(len(bc.Keypers))
		for _, kp := range d.keypers {
			if addrOf(kp) == bc.Keypers[i] {
				return kp, uint64(i)
			}
		}
		return u, 0
	}
	switch x := r.Intn(100); {
	case x < 6:
		d.schedule()
	case x < 11:
		from := w.head() + 2 + simHeadsUp + uint64(r.Intn(4))
		w.tx(w.owner, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.cfg.UnscheduleConfigs(a, from) })
	case x < 42: // users' transactions to the running batch
		h := w.head() + 1
		n, err := w.cfg.NumConfigs(nil)
		must(err)
		cur := uint64(0)
		for i := int(n) - 1; i >= 0; i-- {
			c, err := w.cfg.ConfigForConfigIndex(nil, uint64(i))
			must(err)
			if c.StartBlockNumber <= h {
				cur = c.StartBatchIndex
				if c.BatchSpan > 0 {
					cur += (h - c.StartBlockNumber) / c.BatchSpan
				}
				break
			}
		}
		d.uniq++
		data := []byte(fmt.Sprintf("transaction %d", d.uniq))
		if r.Intn(5) == 0 {
			data = []byte{byte(r.Intn(2))} // repeated ones
		}
		typ := uint8(r.Intn(2))
		w.tx(u, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.bat.AddTransaction(a, cur, typ, data) })
	case x < 60: // the next half step
		e, ei := executor()
		if hs%2 == 0 {
			hash, err := w.bat.BatchHashes(nil, bi, 0)
			must(err)
			var txs [][]byte
			if hash != [32]byte{} {
				for i := r.Intn(3); i > 0; i-- {
					txs = append(txs, []byte(fmt.Sprint(r.Int())))
				}
			}
			w.tx(e, func(a *bind.TransactOpts) (*types.Transaction, error) {
				return w.exe.ExecuteCipherBatch(a, bi, hash, txs, ei)
			})
		} else {
			w.mux.Lock()
			logs := w.logs(0, uint64(len(w.blocks)-1), []common.Address{w.addr.batcher}, nil)
			w.mux.Unlock()
			var txs [][]byte
			for _, l := range logs {
				if ev, err := w.bat.ParseTransactionAdded(*l); err == nil && isEvent(l, "TransactionAdded(uint64,uint8,bytes,bytes32)") && ev.BatchIndex == bi && ev.TransactionType == 1 {
					txs = append(txs, ev.Transaction)
				}
			}
			w.tx(e, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.exe.ExecutePlainBatch(a, bi, txs) })
		}
	case x < 66:
		w.tx(u, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.exe.SkipCipherExecution(a, bi) })
	case x < 70:
		n := uint64(1 + r.Intn(4))
		w.tx(u, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.exe.SkipEmptyOrTimedOutBatches(a, n) })
	case x < 72:
		to := hs + uint64(r.Intn(7))
		w.tx(w.owner, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.exe.SetHalfSteps(a, to) })
	case x < 78:
		w.deposit(d.keypers[r.Intn(4)], int64(1+r.Intn(5)), uint64(r.Intn(4)))
	case x < 81:
		w.tx(d.keypers[r.Intn(4)], func(a *bind.TransactOpts) (*types.Transaction, error) { return w.dep.RequestWithdrawal(a) })
	case x < 83:
		w.tx(d.keypers[r.Intn(4)], func(a *bind.TransactOpts) (*types.Transaction, error) { return w.dep.Withdraw(a, addrOf(u)) })
	default: // accuse, appeal, slash at some executed half step
		if hs == 0 {
			return
		}
		s := uint64(r.Intn(int(hs))) / 2 * 2
		if x < 90 {
			bci, err := w.cfg.ConfigIndexForBatchIndex(nil, s/2)
			must(err)
			b, err := w.cfg.ConfigForConfigIndex(nil, bci)
			must(err)
			bc = b
			e, ei := executor()
			w.tx(e, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.slash.Accuse(a, s, ei) })
			return
		}
		if acc := d.accused(); len(acc) > 0 {
			s = acc[r.Intn(len(acc))]
		}
		bci, err := w.cfg.ConfigIndexForBatchIndex(nil, s/2)
		must(err)
		b, err := w.cfg.ConfigForConfigIndex(nil, bci)
		must(err)
		if x < 94 {
			rc, err := w.exe.GetReceipt(nil, s)
			must(err)
			auth := contract.Authorization{HalfStep: s, BatchHash: rc.BatchHash}
			hash := decSigHash(w.addr.batcher, s/2, rc.CipherBatchHash[:], rc.BatchHash[:])
			for i, a := range b.Keypers {
				for _, kp := range d.keypers {
					if addrOf(kp) == a {
						sig, err := crypto.Sign(hash, kp)
						must(err)
						sig[64] += 27
						auth.SignerIndices = append(auth.SignerIndices, uint64(i))
						auth.Signatures = append(auth.Signatures, sig)
					}
				}
			}
			w.tx(u, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.slash.Appeal(a, auth) })
			return
		}
		w.tx(u, func(a *bind.TransactOpts) (*types.Transaction, error) { return w.slash.Slash(a, s) })
	}
}

// accused lists the half steps with an accusation on the head.
func (d *chainDriver) accused() (r []uint64) {
	w := d.w
	w.mux.Lock()
	logs := w.logs(0, uint64(len(w.blocks)-1), []common.Address{w.addr.slasher}, nil)
	w.mux.Unlock()
	for _, l := range logs {
		if e, err := w.slash.ParseAccused(*l); err == nil && isEvent(l, "Accused(uint64,address,address)") {
			r = append(r, e.HalfStep)
		}
	}
	return
}

func (w *ethWorld) countEvents(k *vt.K) {
	for _, l := range w.logs(0, uint64(len(w.blocks)-1), nil, nil) {
		if e, err := w.exe.ParseBatchExecuted(*l); err == nil && isEvent(l, "BatchExecuted(uint64,bytes32)") && l.Address == w.addr.executor {
			_ = e
			k.Count("ev_batch_executed")
		} else if _, err := w.exe.ParseCipherExecutionSkipped(*l); err == nil && isEvent(l, "CipherExecutionSkipped(uint64)") && l.Address == w.addr.executor {
			k.Count("ev_cipher_skipped")
		} else if _, err := w.cfg.ParseConfigScheduled(*l); err == nil && isEvent(l, "ConfigScheduled(uint64)") && l.Address == w.addr.config {
			k.Count("ev_scheduled")
		} else if _, err := w.cfg.ParseConfigUnscheduled(*l); err == nil && isEvent(l, "ConfigUnscheduled(uint64)") && l.Address == w.addr.config {
			k.Count("ev_unscheduled")
		} else if _, err := w.bat.ParseTransactionAdded(*l); err == nil && isEvent(l, "TransactionAdded(uint64,uint8,bytes,bytes32)") && l.Address == w.addr.batcher {
			k.Count("ev_transaction")
		} else if d, err := w.dep.ParseDepositChanged(*l); err == nil && isEvent(l, "DepositChanged(address,uint256,uint64,uint64,bool,bool)") && l.Address == w.addr.deposit {
			if d.Slashed {
				k.Count("ev_slashed")
			} else if d.Withdrawn {
				k.Count("ev_withdrawn")
			} else {
				k.Count("ev_deposit")
			}
		} else if _, err := w.slash.ParseAccused(*l); err == nil && isEvent(l, "Accused(uint64,address,address)") && l.Address == w.addr.slasher {
			k.Count("ev_accused")
		} else if _, err := w.slash.ParseAppealed(*l); err == nil && isEvent(l, "Appealed(uint64,address)") && l.Address == w.addr.slasher {
			k.Count("ev_appealed")
		}
	}
}

type mcSnap struct {
	m *observe.MainChain
	r string
}

// checkC19 lets several observers follow a chain of random activity on the real contracts.
func checkC19(c *vt.C) {
	ctx := context.Background()
	c.Cases("mainchain", c.N(64, 900), 0, func(k *vt.K) {
		r := k.R
		d := newChainDriver(k)
		defer d.w.close()
		d.dupKeys = r.Intn(4) == 0
		w := d.w
		follow := uint64(r.Intn(6))
		type obs struct {
			m      *observe.MainChain
			every  int
			faulty bool
		}
		call := w.caller(keyOf("observer"), w.client())
		var os []*obs
		for i := 0; i < 3; i++ {
			os = append(os, &obs{m: observe.NewMainChain(follow), every: 1 + i*i*r.Intn(6), faulty: i > 0})
		}
		var snaps []mcSnap
		refs := map[uint64]string{}
		for i := uint64(0); i < 2*follow; i++ {
			w.mine(nil)
		}
		maxHead := w.head()
		advance := func() {
			for i := r.Intn(4); i > 0; i-- {
				d.op()
			}
			w.mine(func(i int, tx *types.Transaction) bool { return r.Intn(8) > 0 })
			if h := w.head(); h > maxHead {
				maxHead = h
			}
		}
		reorg := func() bool {
			// the blocks below maxHead-follow never change
			if w.head()+follow <= maxHead || follow == 0 {
				return false
			}
			n := 1 + r.Intn(int(w.head()+follow-maxHead))
			w.reorg(n, func(*types.Transaction) bool { return r.Intn(6) > 0 })
			k.Count("reorgs")
			return true
		}
		d.schedule()
		syncs := 0
		sync := func(o *obs) bool {
			before := renderMainChain(o.m)
			moving := false
			if o.faulty && r.Intn(4) == 0 {
				n := r.Intn(25)
				mode := r.Intn(3)
				w.fault = func(method string) error {
					if n--; n >= 0 {
						return nil
					}
					switch mode {
					case 0:
						return errors.New("injected fault")
					case 1: // the chain grows while the observer reads
						if n == -1 {
							moving = true
							w.fault = nil
							w.mine(nil)
							if h := w.head(); h > maxHead {
								maxHead = h
							}
						}
					case 2:
						if n == -1 {
							w.fault = nil
							if reorg() {
								moving = true
								for w.head() < maxHead {
									w.mine(nil)
								}
							}
						}
					}
					return nil
				}
				defer func() { w.fault = nil }()
			}
			w.syncing = r.Intn(10) == 0
			head := w.head()
			want := o.m.CurrentBlock
			if head >= follow && head-follow > want {
				want = head - follow
			}
			syncing := w.syncing
			k.Tracef("sync from block %d, head %d, fault %v", o.m.CurrentBlock, head, w.fault != nil)
			m, err := o.m.SyncToHead(ctx, call)
			k.Tracef("  -> %v moving %v, head %d", err, moving, w.head())
			faulted := w.fault != nil
			w.fault = nil
			w.syncing = false
			if err != nil {
				k.Check(m == nil, "error-and-view", "SyncToHead returns both a view and an error")
				k.Check(renderMainChain(o.m) == before, "fault-mutates", "a failed sync changes the view: %s", firstDiff(renderMainChain(o.m), before))
				if !faulted {
					k.Failf("sync-error", "sync from block %d with the head at %d fails: %v", o.m.CurrentBlock, head, err)
					return false
				}
				k.Count("failed_syncs")
				return true
			}
			if moving {
				k.Count("syncs_of_moving_chain")
			}
			if m != o.m {
				snaps = append(snaps, mcSnap{o.m, before})
			}
			syncs++
			k.Count("syncs")
			if h := w.head(); moving && h >= follow && h-follow > want && m.CurrentBlock == h-follow {
				want = m.CurrentBlock
			}
			if m.CurrentBlock != want {
				k.Failf("height", "after a sync from block %d with the head at %d and follow distance %d the view is at block %d", o.m.CurrentBlock, head, follow, m.CurrentBlock)
				return false
			}
			if want > o.m.CurrentBlock {
				k.Check(m.IsSynced() == !syncing, "synced", "IsSynced is %v while the node's syncing flag is %v", m.IsSynced(), syncing)
			}
			o.m = m
			ref, ok := refs[m.CurrentBlock]
			if !ok {
				ref = w.refView(m.CurrentBlock)
				refs[m.CurrentBlock] = ref
			}
			if got := renderMainChain(m); got != ref {
				k.Failf("view", "follow distance %d, view at block %d (head %d) differs from the chain: %s", follow, m.CurrentBlock, head, firstDiff(got, ref))
				return false
			}
			k.Count("views_compared")
			checkMainChainQueries(k, w, m)
			if o.faulty && r.Intn(5) == 0 {
				cp := new(observe.MainChain)
				gobCopy(m, cp)
				if got := renderMainChain(cp); got != ref {
					k.Failf("restart", "the view changes when it's saved and loaded: %s", firstDiff(got, ref))
					return false
				}
				o.m = cp
				k.Count("restarts")
			}
			return true
		}
		for b := 0; b < 45 && !k.Failed(); b++ {
			if b%9 == 4 {
				d.schedule()
			}
			advance()
			if r.Intn(6) == 0 && reorg() {
				if r.Intn(2) == 0 { // a node that lags behind for a while
					k.Count("lagging_heads")
					for _, o := range os {
						if r.Intn(2) == 0 && !sync(o) {
							return
						}
					}
				}
				for w.head() < maxHead {
					advance()
				}
			}
			for _, o := range os {
				if b%o.every == 0 && !sync(o) {
					return
				}
			}
		}
		for _, s := range snaps {
			if got := renderMainChain(s.m); got != s.r {
				k.Failf("mutated", "a view handed out at block %d changes later: %s", s.m.CurrentBlock, firstDiff(got, s.r))
				return
			}
			k.Count("snapshots_unchanged")
		}
		w.countEvents(k)
		k.Eval(refs[os[0].m.CurrentBlock], len(refs) > 10)
		if k.Idx%29 == 0 {
			k.Sample(fmt.Sprintf("head %d, follow distance %d, %d syncs, %d transactions", w.head(), follow, syncs, len(w.sent)))
		}
	})
	for _, n := range []string{"views_compared", "restarts", "failed_syncs", "reorgs", "lagging_heads", "syncs_of_moving_chain", "snapshots_unchanged", "ev_batch_executed", "ev_cipher_skipped",
		"ev_scheduled", "ev_unscheduled", "ev_transaction", "ev_slashed", "ev_withdrawn", "ev_deposit", "ev_accused", "ev_appealed"} {
		c.Require(n, 3)
	}
}

// checkMainChainQueries compares the view's queries to the contracts' at the same block.
func checkMainChainQueries(k *vt.K, w *ethWorld, m *observe.MainChain) {
	r := k.R
	opts := &bind.CallOpts{BlockNumber: new(big.Int).SetUint64(m.CurrentBlock)}
	bi := uint64(r.Intn(30))
	ci, err := w.cfg.ConfigIndexForBatchIndex(opts, bi)
	must(err)
	act, err := w.cfg.BatchingActive(opts, ci)
	must(err)
	gi, ok := m.ConfigIndexForBatchIndex(bi)
	k.Check(ok == act && (!ok || uint64(gi) == ci), "config-for-batch", "ConfigIndexForBatchIndex(%d) is %d, %v; the contract's is %d, %v", bi, gi, ok, ci, act)
	cfg, ok2 := m.ConfigForBatchIndex(bi)
	k.Check(ok2 == act, "config-for-batch", "ConfigForBatchIndex(%d): %v, contract: %v", bi, ok2, act)
	if act && ok2 {
		// (the contract opens batches a span before they start)
		_, x1, x2, err := w.cfg.BatchBoundaryBlocks(opts, ci, bi)
		must(err)
		k.Check(cfg.BatchStartBlock(bi)+cfg.BatchSpan == x1 && cfg.BatchEndBlock(bi) == x1 && cfg.BatchEndBlock(bi)+cfg.ExecutionTimeout == x2, "batch-boundaries",
			"batch %d goes from %d to %d; the contract says it ends at %d with timeout %d", bi, cfg.BatchStartBlock(bi), cfg.BatchEndBlock(bi), x1, x2)
		k.Count("boundaries_compared")
	}
	// the config running at the view's block: the last one that has started
	n, err := w.cfg.NumConfigs(opts)
	must(err)
	want := 0
	for i := uint64(0); i < n; i++ {
		s, err := w.cfg.ConfigStartBlockNumber(opts, i)
		must(err)
		if s <= m.CurrentBlock {
			want = int(i)
		}
	}
	k.Check(m.ActiveConfigIndex(m.CurrentBlock) == want, "active-config", "the active config at block %d is %d, expected %d", m.CurrentBlock, m.ActiveConfigIndex(m.CurrentBlock), want)
	a := common.BytesToAddress([]byte{byte(r.Intn(256))})
	if r.Intn(2) == 0 && len(m.BatchConfigs[want].Keypers) > 0 {
		a = m.BatchConfigs[want].Keypers[0]
	}
	isK := false
	for i := want; i < int(n); i++ {
		c, err := w.cfg.ConfigForConfigIndex(opts, uint64(i))
		must(err)
		for _, x := range c.Keypers {
			isK = isK || bytes.Equal(x[:], a[:])
		}
	}
	k.Check(m.IsActiveKeyper(a) == isK, "active-keyper", "IsActiveKeyper(%x) is %v", a, !isK)
}
