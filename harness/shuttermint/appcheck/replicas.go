package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/tendermint/go-amino"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// genesis describes the start of a chain.
type genesis struct {
	Chain      string
	Keypers    []common.Address
	Threshold  uint64
	Validators [][]byte
	Powers     []int64
	Dev        bool
}

func randGenesis(r *rand.Rand, dev bool) genesis {
	n := 1 + r.Intn(6)
	g := genesis{Chain: []string{"shutter-test", "c", "chain-" + strings.Repeat("z", 40)}[r.Intn(3)], Threshold: 1 + uint64(r.Intn(n)), Dev: dev}
	for _, i := range r.Perm(len(actors))[:n] {
		g.Keypers = append(g.Keypers, actors[i].addr)
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		a := actors[r.Intn(len(actors))]
		dup := false
		for _, v := range g.Validators {
			dup = dup || bytes.Equal(v, a.val)
		}
		if !dup {
			g.Validators = append(g.Validators, a.val)
			g.Powers = append(g.Powers, int64(1+r.Intn(20)))
		}
	}
	return g
}

func (g genesis) model() *model {
	vals := map[string]int64{}
	for i, v := range g.Validators {
		vals[string(v)] += g.Powers[i]
	}
	return newModel(g.Chain, g.Keypers, g.Threshold, vals, g.Dev)
}

func (g genesis) request() abcitypes.RequestInitChain {
	st, err := amino.NewCodec().MarshalJSON(app.NewGenesisAppState(g.Keypers, int(g.Threshold)))
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
	req := abcitypes.RequestInitChain{ChainId: g.Chain, AppStateBytes: st}
	for i, v := range g.Validators {
		req.Validators = append(req.Validators, abcitypes.ValidatorUpdate{
			Power: g.Powers[i], PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: v}},
		})
	}
	return req
}

// sut drives the real application through its ABCI methods.
type sut struct{ a *app.ShutterApp }

func newSut(g genesis, gobpath string) *sut {
	a := app.NewShutterApp()
	a.Gobpath = gobpath
	a.DevMode = g.Dev
	a.InitChain(g.request())
	return &sut{a}
}

func loadSut(path string) (*sut, error) {
	a, err := app.LoadShutterAppFromFile(path)
	if err != nil {
		return nil, err
	}
	return &sut{&a}, nil
}

func (s *sut) height() int64 { return s.a.Info(abcitypes.RequestInfo{}).LastBlockHeight }

func (s *sut) begin(h int64) {
	s.a.BeginBlock(abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: h}})
}

type delivered struct {
	ok     bool
	events []string
	bad    string // an event that cannot be decoded
	raw    string // everything consensus or keypers can see
}

func (s *sut) deliver(raw []byte) delivered {
	r := s.a.DeliverTx(abcitypes.RequestDeliverTx{Tx: raw})
	d := delivered{ok: r.Code == 0}
	for _, e := range r.Events {
		c, err := canon(e)
		if err != nil {
			d.bad = fmt.Sprintf("%s %v: %v", e.Type, e.Attributes, err)
			c = "undecodable " + e.Type
		}
		d.events = append(d.events, c)
	}
	r.Log, r.Info = "", ""
	b, err := r.Marshal()
	if err != nil {
		panic(err)
	}
	d.raw = string(b)
	return d
}

func (s *sut) checkTx(raw []byte) bool {
	return s.a.CheckTx(abcitypes.RequestCheckTx{Tx: raw}).Code == 0
}

func (s *sut) endBlock(h int64) ([]mUpdate, string) {
	r := s.a.EndBlock(abcitypes.RequestEndBlock{Height: h})
	var ups []mUpdate
	for _, u := range r.ValidatorUpdates {
		ups = append(ups, mUpdate{string(u.PubKey.GetEd25519()), u.Power})
	}
	b, err := r.Marshal()
	if err != nil {
		panic(err)
	}
	return ups, string(b)
}

func (s *sut) commit() string {
	r := s.a.Commit()
	return fmt.Sprintf("%x/%d", r.Data, r.RetainHeight)
}

func upString(us []mUpdate) string {
	l := []string{}
	for _, u := range us {
		l = append(l, fmt.Sprintf("%x=%d", u.key[:4], u.power))
	}
	return strings.Join(l, " ")
}

func upEqual(a, b []mUpdate) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// canon decodes an event the way the keypers do and renders it in the model's notation.
func canon(ev abcitypes.Event) (string, error) {
	e, err := shutterevents.MakeEvent(ev, 77)
	if err != nil {
		return "", err
	}
	switch x := e.(type) {
	case *shutterevents.BatchConfig:
		return fmt.Sprintf("config start=%d threshold=%d index=%d keypers=%s", x.StartBatchIndex, x.Threshold, x.ConfigIndex, addrList(x.Keypers)), nil
	case *shutterevents.EonStarted:
		return fmt.Sprintf("eon-started eon=%d batch=%d", x.Eon, x.BatchIndex), nil
	case *shutterevents.CheckIn:
		return fmt.Sprintf("check-in sender=%x key=%x", x.Sender, crypto.CompressPubkey(x.EncryptionPublicKey.ExportECDSA())), nil
	case *shutterevents.DecryptionSignature:
		return fmt.Sprintf("decryption-signature batch=%d sender=%x sig=%x", x.BatchIndex, x.Sender, x.Signature), nil
	case *shutterevents.PolyEval:
		return fmt.Sprintf("poly-eval eon=%d sender=%x receivers=%s evals=%s", x.Eon, x.Sender, addrList(x.Receivers), hexList(x.EncryptedEvals)), nil
	case *shutterevents.PolyCommitment:
		var gs [][]byte
		for _, g := range *x.Gammas {
			gs = append(gs, g.Marshal())
		}
		return fmt.Sprintf("poly-commitment eon=%d sender=%x gammas=%s", x.Eon, x.Sender, hexList(gs)), nil
	case *shutterevents.Accusation:
		return fmt.Sprintf("accusation eon=%d sender=%x accused=%s", x.Eon, x.Sender, addrList(x.Accused)), nil
	case *shutterevents.Apology:
		nums := []string{}
		for _, n := range x.PolyEval {
			nums = append(nums, n.String())
		}
		return fmt.Sprintf("apology eon=%d sender=%x accusers=%s evals=%s", x.Eon, x.Sender, addrList(x.Accusers), strings.Join(nums, ",")), nil
	case *shutterevents.EpochSecretKeyShare:
		return fmt.Sprintf("key-share eon=%d epoch=%d sender=%x share=%x", x.Eon, x.Epoch, x.Sender, x.Share.Marshal()), nil
	}
	return "", fmt.Errorf("unknown event %T", e)
}

func sameOutcome(o outcome, d delivered) bool {
	if o.ok != d.ok || d.bad != "" || len(o.events) != len(d.events) {
		return false
	}
	for i := range o.events {
		if o.events[i] != d.events[i] {
			return false
		}
	}
	return true
}

func describe(o outcome, d delivered) string {
	return fmt.Sprintf("expected accepted=%v events=%v (%s), got accepted=%v events=%v %s", o.ok, o.events, o.why, d.ok, d.events, d.bad)
}

// runModelled runs a random chain on one application in lockstep with the model, reporting
// mismatches of the focus category.
func runModelled(k *vt.K, focus string) {
	g := randGenesis(k.R, k.R.Intn(10) == 0)
	m := g.model()
	s := newSut(g, "")
	var shadow *sut
	if focus == catAuth {
		shadow = newSut(g, "")
	}
	gn := newGen(k.R, m, focus)
	k.Tracef("genesis keypers=%s threshold=%d dev=%v", addrList(g.Keypers), g.Threshold, g.Dev)
	nBlocks := 4 + k.R.Intn(12)
	accepted, configs, updates, dkgAcc := 0, 0, 0, 0
	key := ""
	for h := int64(1); h <= int64(nBlocks); h++ {
		s.begin(h)
		for t := k.R.Intn(16); t > 0; t-- {
			tx := gn.next()
			key += hex.EncodeToString(tx.raw[:minInt(len(tx.raw), 24)])
			o := m.deliver(tx.raw)
			d := s.deliver(tx.raw)
			k.Tracef("block %d: %s -> %s accepted=%v %v", h, tx.desc, o.why, d.ok, d.events)
			k.Count("txs")
			k.Seen("outcomes", o.cat+": "+o.why)
			if !sameOutcome(o, d) {
				cat := o.cat
				if focus == catAuth && o.why == "key share" {
					cat = catAuth
				}
				if cat == focus {
					k.Failf(focus+":"+sanitize(o.why), "block %d, %s: %s", h, tx.desc, describe(o, d))
				} else {
					k.Count("ended_by_other_property")
				}
				return
			}
			if d.ok {
				accepted++
				k.Count("accepted")
				for _, e := range o.events {
					if strings.HasPrefix(e, "config ") {
						configs++
						k.Count("configs_accepted")
					}
				}
				if o.cat == catDKG && o.why != "key share" {
					dkgAcc++
				}
				if shadow != nil {
					if sd := shadow.deliver(tx.raw); sd.raw != d.raw {
						k.Failf("shadow", "a replica that didn't see the refused transactions answers differently to %s: accepted=%v %v instead of accepted=%v %v", tx.desc, sd.ok, sd.events, d.ok, d.events)
						return
					}
					k.Count("shadow_comparisons")
				}
			} else {
				k.Count("refused")
			}
		}
		mu := m.endBlock(h)
		su, raw := s.endBlock(h)
		if shadow != nil {
			if _, sraw := shadow.endBlock(h); sraw != raw {
				k.Failf("shadow", "refused transactions change the validator updates of block %d", h)
				return
			}
		}
		if !upEqual(mu, su) {
			if focus == catStart {
				k.Failf("validators", "block %d: expected validator updates [%s], got [%s]", h, upString(mu), upString(su))
			} else {
				k.Count("ended_by_other_property")
			}
			return
		}
		if len(su) > 0 {
			updates++
			k.Count("validator_updates")
			if focus == catStart && !checkPower(k, m, h) {
				return
			}
		}
		k.Tracef("block %d ends, updates [%s]", h, upString(su))
		if got := s.height(); got != h {
			k.Count("ended_by_other_property")
			return
		}
		s.commit()
		m.commit()
		if shadow != nil {
			shadow.commit()
		}
		k.Count("blocks")
	}
	nontrivial := map[string]bool{catAuth: accepted > 0, catConfig: configs > 0, catStart: updates > 0, catDKG: dkgAcc > 0}[focus]
	k.Eval(key, nontrivial)
	if k.Idx%97 == 0 {
		k.Sample(map[string]interface{}{"keypers": len(g.Keypers), "threshold": g.Threshold, "blocks": nBlocks, "accepted": accepted, "configs": configs, "validator_changes": updates, "last_steps": tail(k.Trace(), 4)})
	}
}

// checkPower: the voting power always adds up to ten per keyper of the active config.
func checkPower(k *vt.K, m *model, h int64) bool {
	for i := len(m.configs) - 1; i >= 0; i-- {
		if c := m.configs[i]; c.started && c.updated {
			var sum int64
			for _, p := range m.validators {
				sum += p
			}
			return k.Check(sum == 10*int64(len(c.keypers)), "power", "block %d: total voting power %d for %d keypers", h, sum, len(c.keypers))
		}
	}
	return true
}

func tail(l []string, n int) []string {
	if len(l) > n {
		l = l[len(l)-n:]
	}
	r := []string{}
	for _, s := range l {
		if len(s) > 300 {
			s = s[:300]
		}
		r = append(r, s)
	}
	return r
}

func sanitize(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, " ", "-"), ":", "") }

// marathonCase: a transaction can't be replayed however many others came in between, from the same
// sender or from others, over many blocks and across restarts.
func marathonCase(k *vt.K) {
	g := randGenesis(k.R, false)
	m := g.model()
	dir := fmt.Sprintf("%s/marathon-%d", k.C.Scratch, k.Idx)
	mkdir(dir)
	defer rmdir(dir)
	app.PersistMinDuration = time.Hour
	s := newSut(g, dir+"/app.gob")
	gn := newGen(k.R, m, catAuth)
	total := k.C.N(9000, 120000)
	perBlock := []int{1, 3, 50, 4000}[k.Idx%4]
	senders := []int{1, 2, 2000}[k.Idx%3]
	var crowd []actor
	for i := 0; i < senders; i++ {
		if i < len(g.Keypers) {
			for _, a := range actors {
				if a.addr == g.Keypers[i] {
					crowd = append(crowd, a)
				}
			}
			continue
		}
		crowd = append(crowd, makeActor(1000+i))
	}
	var done [][]byte
	h := int64(1)
	s.begin(h)
	inBlock := 0
	deliver := func(raw []byte, what string) bool {
		o, d := m.deliver(raw), s.deliver(raw)
		return k.Check(sameOutcome(o, d), "marathon:"+sanitize(o.why), "after %d transactions (%d senders, %d per block): %s: %s", len(done), senders, perBlock, what, describe(o, d))
	}
	replay := func(i int) bool {
		k.Count("replays")
		if !deliver(done[i], fmt.Sprintf("transaction %d again", i)) {
			return false
		}
		return k.Check(!s.checkTx(done[i]), "marathon:checktx", "after %d transactions CheckTx accepts transaction %d again", len(done), i)
	}
	for len(done) < total {
		a := crowd[k.R.Intn(len(crowd))]
		gn.nonce++
		tx := gn.sign(a, shmsg.NewEonStartVote(uint64(k.R.Intn(5))), gn.nonce)
		if !deliver(tx.raw, "a fresh transaction") {
			return
		}
		done = append(done, tx.raw)
		if n := len(done); n&(n-1) == 0 || n%1000 == 1 || n == total {
			for _, i := range []int{0, n / 2, n - 1, k.R.Intn(n), k.R.Intn(n)} {
				if !replay(i) {
					return
				}
			}
		}
		if inBlock++; inBlock >= perBlock {
			inBlock = 0
			m.endBlock(h)
			s.endBlock(h)
			s.commit()
			m.commit()
			if k.R.Intn(total/perBlock) < 3 {
				if err := s.a.PersistToDisk(); err != nil {
					panic(vt.InfraError(err.Error()))
				}
				l, err := loadSut(dir + "/app.gob")
				if !k.Check(err == nil, "marathon:reload", "cannot load the state: %v", err) {
					return
				}
				s = l
				k.Count("marathon_restarts")
			}
			h++
			s.begin(h)
		}
	}
	k.C.Count("marathon_txs", int64(len(done)))
	k.Eval(fmt.Sprintf("marathon %d", k.Idx), true)
	k.Sample(map[string]interface{}{"marathon": len(done), "senders": senders, "per_block": perBlock, "blocks": h})
}

func checkC12(c *vt.C) {
	c.Cases("marathon", c.N(12, 24), 0, marathonCase)
	c.Cases("auth", c.N(1200, 30000), 0, func(k *vt.K) { runModelled(k, catAuth) })
	c.Require("replays", 100)
	c.Require("shadow_comparisons", 500)
	c.Require("refused", 500)
}

func checkC14(c *vt.C) {
	c.Cases("config", c.N(2000, 60000), 0, func(k *vt.K) { runModelled(k, catConfig) })
	c.Require("configs_accepted", 200)
}

func checkC15(c *vt.C) {
	c.Cases("start", c.N(2000, 60000), 0, func(k *vt.K) { runModelled(k, catStart) })
	c.Require("validator_updates", 200)
}

func checkC16(c *vt.C) {
	c.Cases("dkg", c.N(2000, 60000), 0, func(k *vt.K) { runModelled(k, catDKG) })
	c.Require("accepted", 1000)
}

// checkC13 watches CheckTx.
func checkC13(c *vt.C) {
	c.Cases("checktx", c.N(1000, 25000), 0, func(k *vt.K) {
		g := randGenesis(k.R, false)
		m := g.model()
		s, twin := newSut(g, ""), newSut(g, "")
		gn := newGen(k.R, m, []string{catAuth, catConfig, catStart, catDKG}[k.R.Intn(4)])
		adm, ref := 0, 0
		key := ""
		var pool []gtx
		check := func(tx gtx) bool {
			want, why := m.checkTx(tx.raw)
			got := s.checkTx(tx.raw)
			key += hex.EncodeToString(tx.raw[:minInt(len(tx.raw), 24)])
			k.Tracef("check %s -> %v (%s)", tx.desc, got, why)
			k.Count("checktx")
			k.Seen("reasons", why)
			if want {
				adm++
				pool = append(pool, tx)
			} else {
				ref++
			}
			return k.Check(want == got, sanitize(why), "CheckTx of %s: expected %v (%s), got %v", tx.desc, want, why, got)
		}
		flood := func(n int) bool {
			// one sender, many transactions
			a := gn.actor()
			for i := 0; i < n; i++ {
				gn.nonce++
				tx := gn.sign(a, gn.payload([]string{"none", "share", "sig"}[k.R.Intn(3)]), gn.nonce)
				if !check(tx) {
					return false
				}
			}
			return true
		}
		nBlocks := 3 + k.R.Intn(6)
		for h := int64(1); h <= int64(nBlocks); h++ {
			for i := k.R.Intn(25); i > 0; i-- {
				if !check(gn.next()) {
					return
				}
			}
			if k.R.Intn(3) == 0 && !flood(8+k.R.Intn(6)) {
				return
			}
			s.begin(h)
			twin.begin(h)
			deliver := func(tx gtx) bool {
				o := m.deliver(tx.raw)
				d, td := s.deliver(tx.raw), twin.deliver(tx.raw)
				k.Tracef("deliver %s -> %s", tx.desc, o.why)
				if d.raw != td.raw {
					k.Failf("twin", "delivering %s: CheckTx traffic changes the result (accepted=%v %v, without: accepted=%v %v)", tx.desc, d.ok, d.events, td.ok, td.events)
					return false
				}
				k.Count("twin_comparisons")
				if !sameOutcome(o, d) {
					k.Count("ended_by_other_property")
					return false
				}
				return true
			}
			p := pool
			pool = nil
			for _, tx := range p {
				switch k.R.Intn(5) {
				case 0: // stays in the pool
					pool = append(pool, tx)
				case 1: // dropped
				default:
					if !deliver(tx) {
						return
					}
				}
				if k.R.Intn(10) == 0 && !check(gn.next()) {
					return
				}
			}
			for i := k.R.Intn(6); i > 0; i-- {
				if !deliver(gn.next()) {
					return
				}
			}
			mu := m.endBlock(h)
			su, raw := s.endBlock(h)
			_, traw := twin.endBlock(h)
			if !k.Check(raw == traw, "twin", "block %d: CheckTx traffic changes the validator updates", h) {
				return
			}
			if !upEqual(mu, su) {
				k.Count("ended_by_other_property")
				return
			}
			// just before the commit the limits still hold
			if k.R.Intn(3) == 0 && !check(gn.next()) {
				return
			}
			s.commit()
			twin.commit()
			m.commit()
			// recheck what stayed in the pool
			p = pool
			pool = nil
			for _, tx := range p {
				if !check(tx) {
					return
				}
			}
		}
		k.Eval(key, adm > 0 && ref > 0)
		if k.Idx%97 == 0 {
			k.Sample(map[string]interface{}{"admitted": adm, "refused": ref, "last_steps": tail(k.Trace(), 4)})
		}
	})
	c.Require("twin_comparisons", 500)
	c.Require("checktx", 3000)
}

// checkC10 compares replicas.
func checkC10(c *vt.C) {
	app.PersistMinDuration = 0
	c.Cases("replicas", c.N(500, 12000), 0, func(k *vt.K) {
		g := randGenesis(k.R, false)
		m := g.model()
		gn := newGen(k.R, m, []string{catAuth, catConfig, catStart, catStart, catDKG}[k.R.Intn(5)])
		dir := filepath.Join(c.Scratch, fmt.Sprintf("c10-%d", k.Idx))
		mkdir(dir)
		defer rmdir(dir)
		path := filepath.Join(dir, "state.gob")
		// 0 plain, 1 CheckTx traffic, 2 restarts now and then, 3 plain, 4 CheckTx and persistence
		reps := []*sut{newSut(g, ""), newSut(g, ""), newSut(g, path), newSut(g, ""), newSut(g, filepath.Join(dir, "other.gob"))}
		acc := 0
		key := ""
		nBlocks := 4 + k.R.Intn(10)
		for h := int64(1); h <= int64(nBlocks); h++ {
			var txs []gtx
			for i := k.R.Intn(14); i > 0; i-- {
				tx := gn.next()
				key += hex.EncodeToString(tx.raw[:minInt(len(tx.raw), 24)])
				m.deliver(tx.raw) // steers the generator
				txs = append(txs, tx)
			}
			m.endBlock(h)
			var ref []string
			for ri, s := range reps {
				var got []string
				noise := ri == 1 || ri == 4
				s.begin(h)
				for _, tx := range txs {
					if noise && k.R.Intn(2) == 0 {
						s.checkTx(tx.raw)
					}
					if noise && k.R.Intn(4) == 0 {
						s.checkTx(txs[k.R.Intn(len(txs))].raw)
					}
					d := s.deliver(tx.raw)
					if d.ok && ri == 0 {
						acc++
						k.Count("accepted")
					}
					got = append(got, d.raw)
				}
				_, e := s.endBlock(h)
				got = append(got, e, s.commit())
				info := s.a.Info(abcitypes.RequestInfo{})
				got = append(got, fmt.Sprintf("%d/%x", info.LastBlockHeight, info.LastBlockAppHash))
				if ri == 0 {
					ref = got
					if len(e) > 0 {
						k.Count("validator_updates")
					}
					continue
				}
				for i := range ref {
					k.Count("comparisons")
					if ref[i] != got[i] {
						what := "the end of the block"
						if i < len(txs) {
							what = txs[i].desc
						}
						k.Failf("diverge", "block %d: replica %d answers differently at %s: %q instead of %q", h, ri, what, got[i], ref[i])
						return
					}
				}
			}
			k.Tracef("block %d: %d txs", h, len(txs))
			if k.R.Intn(3) == 0 {
				s, err := loadSut(path)
				if err != nil {
					k.Failf("load", "a replica cannot load its state after block %d: %v", h, err)
					return
				}
				reps[2] = s
				k.Count("restarts")
			}
			k.Count("blocks")
		}
		k.Eval(key, acc > 0)
		if k.Idx%97 == 0 {
			k.Sample(map[string]interface{}{"keypers": len(g.Keypers), "blocks": nBlocks, "accepted": acc})
		}
	})
	c.Require("comparisons", 5000)
	c.Require("validator_updates", 20)
	c.Require("restarts", 50)
}
