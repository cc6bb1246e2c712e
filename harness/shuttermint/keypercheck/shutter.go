package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// obsEvent is an event together with what the observer's model needs to know.
type obsEvent struct {
	height int64
	ev     shutterevents.IEvent
	bad    *abcitypes.Event // a malformed event instead
}

func (e obsEvent) String() string {
	if e.bad != nil {
		return fmt.Sprintf("%d malformed %v", e.height, e.bad)
	}
	return render(e.height, e.ev)
}

func render(h int64, ev shutterevents.IEvent) string {
	a := ev.MakeABCIEvent()
	s := fmt.Sprintf("%d %s", h, a.Type)
	for _, at := range a.Attributes {
		s += fmt.Sprintf(" %s=%s", at.Key, at.Value)
	}
	return s
}

type obsWorld struct {
	addrs []common.Address
	keys  []*ecies.PublicKey
	g1    []*bn256.G1
	g2    []*bn256.G2
}

var obsw = func() *obsWorld {
	w := &obsWorld{}
	for i := int64(1); i <= 8; i++ {
		k, err := crypto.ToECDSA(common.LeftPadBytes([]byte{byte(i)}, 32))
		must(err)
		w.addrs = append(w.addrs, crypto.PubkeyToAddress(k.PublicKey))
		w.keys = append(w.keys, ecies.ImportECDSAPublic(&k.PublicKey))
		w.g1 = append(w.g1, new(bn256.G1).ScalarBaseMult(big.NewInt(i*7919)))
		w.g2 = append(w.g2, new(bn256.G2).ScalarBaseMult(big.NewInt(i*104729)))
		// Marshal normalises a point in place: do that before the workers share the points
		w.g1[i-1].Marshal()
		w.g2[i-1].Marshal()
	}
	return w
}()

func (w *obsWorld) addr(r *rand.Rand) common.Address { return w.addrs[r.Intn(len(w.addrs))] }
func (w *obsWorld) some(r *rand.Rand) []common.Address {
	var l []common.Address
	for _, i := range r.Perm(len(w.addrs))[:r.Intn(5)] {
		l = append(l, w.addrs[i])
	}
	return l
}

func (w *obsWorld) event(r *rand.Rand, h int64, maxEon *uint64) shutterevents.IEvent {
	eon := uint64(0)
	if *maxEon > 0 {
		eon = uint64(r.Int63n(int64(*maxEon) + 1))
	}
	if r.Intn(25) == 0 {
		eon += 1 + uint64(r.Intn(3))
	}
	switch n := r.Intn(20); {
	case n < 1:
		return shutterevents.BatchConfig{Height: h, Keypers: w.some(r), StartBatchIndex: uint64(r.Intn(50)), Threshold: uint64(r.Intn(4)), ConfigIndex: uint64(r.Intn(6))}
	case n < 3:
		e := *maxEon + 1 + uint64(r.Intn(2))
		if r.Intn(12) == 0 && *maxEon > 0 {
			e = uint64(r.Int63n(int64(*maxEon) + 1))
		}
		if e > *maxEon {
			*maxEon = e
		}
		return shutterevents.EonStarted{Height: h, Eon: e, BatchIndex: uint64(r.Intn(50))}
	case n < 4:
		i := r.Intn(len(w.keys))
		return shutterevents.CheckIn{Height: h, Sender: w.addr(r), EncryptionPublicKey: w.keys[i]}
	case n < 8:
		sig := make([]byte, r.Intn(3)*33)
		r.Read(sig)
		return shutterevents.DecryptionSignature{Height: h, BatchIndex: uint64(r.Intn(12)), Sender: w.addr(r), Signature: sig}
	case n < 10:
		e := shutterevents.PolyEval{Height: h, Eon: eon, Sender: w.addr(r), Receivers: w.some(r)}
		for range e.Receivers {
			b := make([]byte, r.Intn(3)*20)
			r.Read(b)
			e.EncryptedEvals = append(e.EncryptedEvals, b)
		}
		return e
	case n < 12:
		gs := shcrypto.Gammas{}
		for i := r.Intn(4); i > 0; i-- {
			gs = append(gs, w.g2[r.Intn(len(w.g2))])
		}
		return shutterevents.PolyCommitment{Height: h, Eon: eon, Sender: w.addr(r), Gammas: &gs}
	case n < 14:
		return shutterevents.Accusation{Height: h, Eon: eon, Sender: w.addr(r), Accused: w.some(r)}
	case n < 16:
		e := shutterevents.Apology{Height: h, Eon: eon, Sender: w.addr(r), Accusers: w.some(r)}
		for range e.Accusers {
			e.PolyEval = append(e.PolyEval, big.NewInt(int64(r.Intn(3))*r.Int63()))
		}
		return e
	}
	s := shcrypto.EpochSecretKeyShare(*w.g1[r.Intn(len(w.g1))])
	return shutterevents.EpochSecretKeyShare{Height: h, Eon: eon, Epoch: uint64(r.Intn(12)), Sender: w.addr(r), Share: &s}
}

// shutterModel is the expected view.
type shutterModel struct {
	height   int64
	configs  []string
	cfgs     []shutterevents.BatchConfig
	keys     map[common.Address]string
	batches  map[uint64][]string
	eons     []*eonModel
	eonByNum map[uint64]*eonModel
}

type eonModel struct {
	start string
	num   uint64
	batch uint64
	lists [5][]hs // commitments, evals, accusations, apologies, key shares
}

type hs struct {
	h int64
	s string
}

func modelAt(evs []obsEvent, height int64) *shutterModel {
	m := &shutterModel{height: height, keys: map[common.Address]string{}, batches: map[uint64][]string{}, eonByNum: map[uint64]*eonModel{}}
	for _, e := range evs {
		if e.height > height || e.bad != nil {
			continue
		}
		s := e.String()
		add := func(eon uint64, i int) {
			if x := m.eonByNum[eon]; x != nil {
				x.lists[i] = append(x.lists[i], hs{e.height, s})
			}
		}
		switch x := e.ev.(type) {
		case shutterevents.BatchConfig:
			m.configs = append(m.configs, s)
			m.cfgs = append(m.cfgs, x)
		case shutterevents.CheckIn:
			m.keys[x.Sender] = fmt.Sprintf("%x", crypto.CompressPubkey(x.EncryptionPublicKey.ExportECDSA()))
		case shutterevents.DecryptionSignature:
			m.batches[x.BatchIndex] = append(m.batches[x.BatchIndex], s)
		case shutterevents.EonStarted:
			if len(m.eons) > 0 && m.eons[len(m.eons)-1].num >= x.Eon {
				continue // eons increase
			}
			em := &eonModel{start: s, num: x.Eon, batch: x.BatchIndex}
			m.eons = append(m.eons, em)
			m.eonByNum[x.Eon] = em
		case shutterevents.PolyCommitment:
			add(x.Eon, 0)
		case shutterevents.PolyEval:
			add(x.Eon, 1)
		case shutterevents.Accusation:
			add(x.Eon, 2)
		case shutterevents.Apology:
			add(x.Eon, 3)
		case shutterevents.EpochSecretKeyShare:
			add(x.Eon, 4)
		}
	}
	return m
}

// expect renders the model with everything below the filter removed. Batches below the filter
// are left out of the comparison.
func (m *shutterModel) expect(f observe.ShutterFilter) string {
	var b strings.Builder
	fmt.Fprintf(&b, "height %d\n", m.height)
	for _, c := range m.configs {
		fmt.Fprintln(&b, c)
	}
	var l []string
	for a, k := range m.keys {
		l = append(l, fmt.Sprintf("%x key %s", a, k))
	}
	for bi, sigs := range m.batches {
		if bi >= f.BatchIndex {
			l = append(l, fmt.Sprintf("batch %d: %s", bi, strings.Join(sigs, " | ")))
		}
	}
	sort.Strings(l)
	fmt.Fprintln(&b, strings.Join(l, "\n"))
	for _, e := range m.eons {
		fmt.Fprintf(&b, "eon %d: %s\n", e.num, e.start)
		for i, li := range e.lists {
			for _, x := range li {
				if x.h >= f.SyncHeight {
					fmt.Fprintf(&b, " %d %s\n", i, x.s)
				}
			}
		}
	}
	return b.String()
}

func renderShutter(s *observe.Shutter, f observe.ShutterFilter) string {
	var b strings.Builder
	fmt.Fprintf(&b, "height %d\n", s.CurrentBlock)
	for _, c := range s.BatchConfigs {
		fmt.Fprintln(&b, render(c.Height, c))
	}
	var l []string
	for a, k := range s.KeyperEncryptionKeys {
		l = append(l, fmt.Sprintf("%x key %x", a, crypto.CompressPubkey((*ecies.PublicKey)(k).ExportECDSA())))
	}
	for bi, d := range s.Batches {
		if bi < f.BatchIndex {
			continue
		}
		var sigs []string
		for _, x := range d.DecryptionSignatures {
			sigs = append(sigs, render(x.Height, x))
		}
		if d.BatchIndex != bi {
			l = append(l, fmt.Sprintf("batch %d is stored as %d", d.BatchIndex, bi))
		}
		l = append(l, fmt.Sprintf("batch %d: %s", bi, strings.Join(sigs, " | ")))
	}
	sort.Strings(l)
	fmt.Fprintln(&b, strings.Join(l, "\n"))
	for _, e := range s.Eons {
		fmt.Fprintf(&b, "eon %d: %s\n", e.Eon, render(e.StartHeight, e.StartEvent))
		for _, x := range e.Commitments {
			fmt.Fprintf(&b, " 0 %s\n", render(x.Height, x))
		}
		for _, x := range e.PolyEvals {
			fmt.Fprintf(&b, " 1 %s\n", render(x.Height, x))
		}
		for _, x := range e.Accusations {
			fmt.Fprintf(&b, " 2 %s\n", render(x.Height, x))
		}
		for _, x := range e.Apologies {
			fmt.Fprintf(&b, " 3 %s\n", render(x.Height, x))
		}
		for _, x := range e.EpochSecretKeyShares {
			fmt.Fprintf(&b, " 4 %s\n", render(x.Height, x))
		}
	}
	return b.String()
}

func firstDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: got %.400s, want %.400s", i, a, b)
		}
	}
	return "same"
}

func gobCopy(src, dst interface{}) {
	var b bytes.Buffer
	must(gob.NewEncoder(&b).Encode(src))
	must(gob.NewDecoder(&b).Decode(dst))
}

func randShutterChain(r *rand.Rand) (*tmSim, []obsEvent) {
	t := newTmSim(nil, 0, "")
	var evs []obsEvent
	var maxEon uint64
	n := 1 + r.Intn(60)
	long := r.Intn(6) == 0
	if long {
		n = 300 + r.Intn(900)
	}
	for h := int64(1); h <= int64(n); h++ {
		var rs []abcitypes.ResponseDeliverTx
		ntx := 0
		switch {
		case long && r.Intn(20) > 0:
		case r.Intn(40) == 0:
			ntx = 95 + r.Intn(120)
		case r.Intn(3) > 0:
			ntx = r.Intn(8)
		}
		for ; ntx > 0; ntx-- {
			var res abcitypes.ResponseDeliverTx
			if r.Intn(10) == 0 {
				res.Code = 1
			}
			for i := r.Intn(3); i > 0 && res.Code == 0; i-- {
				if r.Intn(15) == 0 {
					ev := abcitypes.Event{Type: []string{"shutter.accusation", "transfer", "", "shutter.check-in"}[r.Intn(4)]}
					if r.Intn(2) == 0 {
						ev.Attributes = []abcitypes.EventAttribute{{Key: []byte("Sender"), Value: []byte("zz")}, {Key: []byte("Eon"), Value: []byte("-1")}}
					}
					res.Events = append(res.Events, ev)
					evs = append(evs, obsEvent{h, nil, &ev})
					continue
				}
				e := obsw.event(r, h, &maxEon)
				res.Events = append(res.Events, e.MakeABCIEvent())
				evs = append(evs, obsEvent{h, e, nil})
			}
			rs = append(rs, res)
		}
		t.addResults(rs)
	}
	if r.Intn(5) == 0 && len(t.txs) > 0 { // full pages only
		t.addResults(make([]abcitypes.ResponseDeliverTx, (100-len(t.txs)%100)%100))
	}
	return t, evs
}

func checkC18(c *vt.C) {
	c.Cases("chains", c.N(400, 6000), 0, func(k *vt.K) {
		r := k.R
		t, evs := randShutterChain(r)
		for _, e := range evs {
			k.Tracef("%s", e)
		}
		ctx := context.Background()
		head := t.committed()
		if head < 1 {
			return
		}
		failAt := map[string]bool{}
		errFault := errors.New("injected fault")
		t.fault = func(m string) error {
			if failAt[m] {
				return errFault
			}
			return nil
		}
		// several observers, each with its own steps, filters and restarts
		for o := 0; o < 4; o++ {
			sh := observe.NewShutter()
			filter := observe.ShutterFilter{}
			maxBatch := uint64(0)
			type snap struct {
				s *observe.Shutter
				f observe.ShutterFilter
				r string
			}
			var snaps []snap
			steps := 0
			for sh.CurrentBlock < head {
				target := head
				if o > 0 {
					target = sh.CurrentBlock + int64(r.Intn(1+int(head)/2))
					if r.Intn(4) == 0 {
						target = sh.CurrentBlock + int64(r.Intn(3))
					}
					if target > head {
						target = head
					}
					if target < 1 {
						target = 1
					}
				}
				if o > 1 && r.Intn(4) == 0 { // a failing node: the view stays as it is
					m := []string{"txsearch", "status", "block"}[r.Intn(3)]
					failAt[m] = true
					before := renderShutter(sh, observe.ShutterFilter{})
					ns, err := sh.SyncToHeight(ctx, t, target)
					if m == "block" && r.Intn(2) == 0 {
						ns, err = sh.SyncToHead(ctx, t)
					}
					delete(failAt, m)
					k.Check(err != nil && ns == nil, "fault-ignored", "SyncToHeight ignores that %s fails", m)
					k.Check(renderShutter(sh, observe.ShutterFilter{}) == before, "fault-mutates", "a failed sync changes the view: %s", firstDiff(renderShutter(sh, observe.ShutterFilter{}), before))
					k.Count("failed_syncs")
				}
				t.catchingUp = r.Intn(3) == 0
				var ns *observe.Shutter
				var err error
				if target == head && r.Intn(2) == 0 {
					ns, err = sh.SyncToHead(ctx, t)
				} else {
					ns, err = sh.SyncToHeight(ctx, t, target)
				}
				if err != nil {
					k.Failf("sync-error", "sync from %d to %d: %v", sh.CurrentBlock, target, err)
					return
				}
				steps++
				k.Count("syncs")
				if target > sh.CurrentBlock {
					k.Check(ns.IsSynced() == !t.catchingUp, "synced", "IsSynced is %v while the node's catching-up flag is %v", ns.IsSynced(), t.catchingUp)
				}
				snaps = append(snaps, snap{sh, filter, renderShutter(sh, observe.ShutterFilter{})})
				sh = ns
				m := modelAt(evs, sh.CurrentBlock)
				f := observe.ShutterFilter{SyncHeight: filter.SyncHeight, BatchIndex: maxBatch}
				if got, want := renderShutter(sh, f), m.expect(f); got != want {
					k.Failf("view", "observer %d synced to %d in %d steps (filter %+v): %s", o, sh.CurrentBlock, steps, f, firstDiff(got, want))
					return
				}
				k.Count("views_compared")
				checkShutterQueries(k, sh, m)
				if o > 1 && r.Intn(3) == 0 { // restart
					cp := new(observe.Shutter)
					gobCopy(sh, cp)
					if got, want := renderShutter(cp, observe.ShutterFilter{}), renderShutter(sh, observe.ShutterFilter{}); got != want {
						k.Failf("restart", "the view changes when it's saved and loaded: %s", firstDiff(got, want))
						return
					}
					sh = cp
					k.Count("restarts")
				}
				if o > 0 && r.Intn(2) == 0 { // drop what's been dealt with
					nf := observe.ShutterFilter{SyncHeight: sh.CurrentBlock + 1 - int64(r.Intn(10)), BatchIndex: uint64(r.Intn(12))}
					if nf.SyncHeight < filter.SyncHeight {
						nf.SyncHeight = filter.SyncHeight
					}
					if nf.BatchIndex < filter.BatchIndex {
						nf.BatchIndex = filter.BatchIndex
					}
					before := renderShutter(sh, observe.ShutterFilter{})
					fs := sh.ApplyFilter(nf)
					k.Check(renderShutter(sh, observe.ShutterFilter{}) == before, "filter-mutates", "ApplyFilter changes the view it's applied to")
					snaps = append(snaps, snap{sh, filter, before})
					sh = fs
					filter = nf
					maxBatch = nf.BatchIndex
					if got, want := renderShutter(sh, filter), m.expect(filter); got != want {
						k.Failf("filter", "filter %+v at height %d: %s", filter, sh.CurrentBlock, firstDiff(got, want))
						return
					}
					k.Count("filters_applied")
				}
			}
			for _, s := range snaps {
				if got := renderShutter(s.s, observe.ShutterFilter{}); got != s.r {
					k.Failf("mutated", "a view handed out at height %d changes later: %s", s.s.CurrentBlock, firstDiff(got, s.r))
					return
				}
				k.Count("snapshots_unchanged")
			}
		}
		if t.maxPage > 1 {
			k.Count("chains_with_pages")
		}
		if head > 500 {
			k.Count("chains_over_500_blocks")
		}
		k.Eval(fmt.Sprint(len(evs), evs), len(evs) > 0)
		if k.Idx%97 == 0 && len(evs) > 0 {
			k.Sample(fmt.Sprintf("%d blocks, %d events, first: %s", head, len(evs), evs[0]))
		}
	})
	for _, n := range []string{"views_compared", "restarts", "filters_applied", "failed_syncs", "chains_with_pages", "chains_over_500_blocks", "snapshots_unchanged"} {
		c.Require(n, 5)
	}
}

func checkShutterQueries(k *vt.K, sh *observe.Shutter, m *shutterModel) {
	r := k.R
	for n := 0; n < 4; n++ {
		num := uint64(r.Intn(12))
		e, err := sh.FindEon(num)
		if x := m.eonByNum[num]; (err == nil) != (x != nil) || err == nil && e.Eon != num {
			k.Failf("find-eon", "FindEon(%d) finds %v (%v), exists: %v", num, e, err, x != nil)
		}
		bi := uint64(r.Intn(60))
		var want *eonModel
		for i := range m.eons {
			if m.eons[i].batch <= bi {
				want = m.eons[i]
			}
		}
		e, err = sh.FindEonByBatchIndex(bi)
		if (err == nil) != (want != nil) || err == nil && e.Eon != want.num {
			k.Failf("find-eon-by-batch", "FindEonByBatchIndex(%d) finds %v (%v), expected %v", bi, e, err, want)
		}
		var wc *shutterevents.BatchConfig
		for i := range m.cfgs {
			if m.cfgs[i].StartBatchIndex <= bi {
				wc = &m.cfgs[i]
			}
		}
		gc := sh.FindBatchConfigByBatchIndex(bi)
		if wc == nil {
			wc = &shutterevents.BatchConfig{}
		}
		k.Check(render(gc.Height, gc) == render(wc.Height, *wc), "find-config", "FindBatchConfigByBatchIndex(%d) gives %v, expected %v", bi, gc, wc)
		ci := uint64(r.Intn(7))
		gi, err := sh.FindBatchConfigByConfigIndex(ci)
		have := false
		for _, x := range m.cfgs {
			have = have || x.ConfigIndex == ci
		}
		k.Check((err == nil) == have && (err != nil || gi.ConfigIndex == ci), "find-config-index", "FindBatchConfigByConfigIndex(%d) gives %v, %v", ci, gi, err)
		a := obsw.addr(r)
		isK := false
		for _, x := range m.cfgs {
			for _, y := range x.Keypers {
				isK = isK || y == a
			}
		}
		k.Check(sh.IsKeyper(a) == isK, "is-keyper", "IsKeyper(%x) is %v", a, !isK)
		k.Check(sh.IsCheckedIn(a) == (m.keys[a] != ""), "is-checked-in", "IsCheckedIn(%x) is %v", a, m.keys[a] == "")
	}
}
