package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// A simulation runs several keypers' deciders against the simulated chains with the real
// application and the real contracts. Byzantine keypers run a decider too, but their messages and
// transactions are altered on the way out.

type simOpts struct {
	n, t     int // keypers and threshold of the first config
	byz      int // byzantine keypers
	phase    int
	span     uint64
	timeout  uint64
	follow   uint64
	stagger  uint64
	ticks    int
	lag      int  // percentage of steps without synchronising (0: timely)
	restart  int  // percentage of steps before which the keyper restarts
	second   bool // a second config with other keypers
	reorgs   bool
	byzKinds []string
	userTxs  int // percentage of ticks with users' transactions
	dkgFail  bool
	slowEth  bool // one honest keyper's main chain node lags behind
	fatTxs   bool
	across   bool // some stay away while the second config becomes current
	outage   int  // a keyper stays away for a while every that many ticks, 0: never
	tardy    bool // some honest keypers start when the key generation is under way
}

type shMsg struct {
	height int64
	sender common.Address
	m      *shmsg.Message
}

type simKeyper struct {
	name   string
	idx    int
	key    *ecdsa.PrivateKey
	addr   common.Address
	cfg    keyper.Config
	st     *keyper.State
	sh     *observe.Shutter
	mc     *observe.MainChain
	caller *contract.Caller
	byz    bool
	kinds  map[string]bool
	filter observe.ShutterFilter

	outSh   []*shmsg.Message
	outMc   []fx.MainChainTX
	flight  []common.Hash
	sent    []*shmsg.Message // everything an honest keyper decided to send
	slow    bool
	mcHeads []*observe.MainChain // old views of a slow one
	shares  map[[2]uint64]bool
	steps   int
	dir     string
	ekgSeen map[uint64]bool
	wrong   map[uint64]bool // half steps a byzantine keyper executed wrongly
	mcTick  int
	away    int    // ticks the keyper still stays away
	next    uint64 // the next batch whose end the keyper has not seen
	since   int64  // shuttermint's height when the keyper began
	decided map[uint64]bool
	votes   map[uint64]int    // start batch -> votes for another start of its eon
	ready   map[uint64]uint64 // eon -> main chain block of the view at the step the eon key was there
}

type simBatchTx struct {
	plain []byte // nil if it can't be decrypted
	eon   uint64
}

type sim struct {
	k          *vt.K
	r          *rand.Rand
	o          simOpts
	w          *ethWorld
	tm         *tmSim
	kps        []*simKeyper
	all        []*ecdsa.PrivateKey
	user       *ecdsa.PrivateKey
	boot       *ecdsa.PrivateKey
	msgs       []shMsg // accepted messages
	eons       []shutterevents.EonStarted
	confs      []simConf // shuttermint configs by index-1
	refs       map[uint64]*refEon
	cipher     map[string]simBatchTx // ciphertext -> plaintext
	uniq       int
	quiet      bool // the final phase
	watch      map[string]bool
	tick       int
	honestKeys map[string]bool
	confIdx    uint64
	infos      map[uint64]batchInfo
	infosOf    uint64
	starts     []uint64 // configs' start blocks
	timeout1   uint64   // the first config's
	change     uint64   // around the block when the second config becomes current
	mon        func(kp *simKeyper, acts []fx.IAction, pre *keyper.State)
}

type simConf struct {
	height int64
	ev     shutterevents.BatchConfig
}

// refEon is what follows from the messages on chain for a key generation.
type refEon struct {
	eon       uint64
	batch     uint64
	start     int64
	keypers   []common.Address
	threshold uint64
	qualified []bool
	nqual     uint64
	pub       *shcrypto.EonPublicKey
	shares    []*shcrypto.EonPublicKeyShare
	can       []bool // the keypers that have what their secret share is made of (of honest ones)
}

func (s *sim) trace(f string, a ...interface{}) {
	s.k.Tracef("[%d eth %d tm %d] "+f, append([]interface{}{s.tick, s.w.head(), s.tm.height}, a...)...)
}

func newSim(k *vt.K, o simOpts) *sim {
	s := &sim{k: k, r: k.R, o: o, user: keyOf("simuser"), boot: keyOf("bootstrap"), refs: map[uint64]*refEon{}, starts: []uint64{0},
		cipher: map[string]simBatchTx{}, honestKeys: map[string]bool{}}
	pool := o.n
	if o.second {
		pool++
	}
	funded := []*ecdsa.PrivateKey{s.user}
	for i := 0; i < pool; i++ {
		key := keyOf(fmt.Sprintf("simkeyper%d", i))
		s.all = append(s.all, key)
		funded = append(funded, key)
	}
	s.w = newEthWorld(funded...)
	for i := uint64(0); i < o.follow; i++ {
		s.w.mineOK()
	}
	s.tm = newTmSim([]common.Address{addrOf(s.boot)}, 1, "")
	cl := s.w.cl
	base := c2dir(k)
	for i, key := range s.all {
		seed := crypto.Keccak256([]byte(fmt.Sprintf("ed%d", i)))
		kp := &simKeyper{name: fmt.Sprintf("k%d", i), idx: i, key: key, addr: addrOf(key), st: keyper.NewState(),
			sh: observe.NewShutter(), mc: observe.NewMainChain(o.follow), caller: s.w.caller(key, cl), kinds: map[string]bool{},
			shares: map[[2]uint64]bool{}, ekgSeen: map[uint64]bool{}, wrong: map[uint64]bool{}, ready: map[uint64]uint64{},
			decided: map[uint64]bool{}, votes: map[uint64]int{}}
		kp.dir = filepath.Join(base, kp.name)
		must(os.MkdirAll(kp.dir, 0o755))
		kp.cfg = keyper.Config{SigningKey: key, ValidatorKey: ed25519.NewKeyFromSeed(seed), EncryptionKey: ecies.ImportECDSA(keyOf(fmt.Sprintf("enc%d", i))),
			ConfigContractAddress: s.w.addr.config, BatcherContractAddress: s.w.addr.batcher, KeyBroadcastContractAddress: s.w.addr.bcast,
			ExecutorContractAddress: s.w.addr.executor, DepositContractAddress: s.w.addr.deposit, KeyperSlasherAddress: s.w.addr.slasher,
			MainChainFollowDistance: o.follow, ExecutionStaggering: o.stagger, DKGPhaseLength: uint64(o.phase), DBDir: kp.dir}
		s.kps = append(s.kps, kp)
	}
	for _, i := range s.r.Perm(o.n)[:o.byz] {
		s.kps[i].byz = true
		for _, kind := range o.byzKinds {
			if s.r.Intn(2) == 0 {
				s.kps[i].kinds[kind] = true
			}
		}
		if len(s.kps[i].kinds) == 0 && len(o.byzKinds) > 0 {
			s.kps[i].kinds[o.byzKinds[s.r.Intn(len(o.byzKinds))]] = true
		}
		k.Tracef("%s is byzantine: %v", s.kps[i].name, keysOf(s.kps[i].kinds))
	}
	if o.tardy {
		for _, kp := range s.kps {
			if s.r.Intn(2) == 0 {
				kp.away = s.r.Intn(o.phase + 4)
			}
		}
	}
	if o.slowEth {
		for _, kp := range s.kps {
			if !kp.byz {
				kp.slow = true
				break
			}
		}
	}
	return s
}

func keysOf(m map[string]bool) (r []string) {
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return
}

func c2dir(k *vt.K) string {
	d := filepath.Join(k.C.Scratch, fmt.Sprintf("%s-%d", k.Name, k.Idx))
	must(os.MkdirAll(d, 0o755))
	return d
}

func (s *sim) close() {
	s.w.close()
	for _, kp := range s.kps {
		os.RemoveAll(kp.dir)
	}
}

// schedule makes a config current from about the given block on.
func (s *sim) schedule(keypers []*simKeyper, t uint64, startBatch, startBlock uint64) {
	var as []common.Address
	for _, kp := range keypers {
		as = append(as, kp.addr)
	}
	gas := uint64(60000)
	bc := contract.BatchConfig{StartBatchIndex: startBatch, StartBlockNumber: startBlock, Keypers: as, Threshold: t, BatchSpan: s.o.span,
		BatchSizeLimit: 100000, TransactionSizeLimit: 20000, TransactionGasLimit: gas, FeeReceiver: addrOf(s.boot),
		TargetAddress: s.w.addr.target, TargetFunctionSelector: targetSelector(), ExecutionTimeout: s.o.timeout}
	h := s.w.setNext(bc, true)
	s.w.mine(nil) // along with whatever others have sent
	if _, ok := s.w.status(h); !ok {
		panic(vt.InfraError("scheduling a config of the simulation fails"))
	}
	n, err := s.w.cfg.NumConfigs(nil)
	must(err)
	s.confIdx = n - 1
	s.trace("config %d from batch %d, block %d: %d keypers, threshold %d", s.confIdx, startBatch, startBlock, len(as), t)
}

func (s *sim) send(key *ecdsa.PrivateKey, m *shmsg.Message) []byte {
	signed, err := shmsg.SignMessage(&shmsg.MessageWithNonce{ChainId: []byte(tmChainID), RandomNonce: s.r.Uint64(), Msg: m}, key)
	must(err)
	return []byte(base64.RawURLEncoding.EncodeToString(signed))
}

type outMsg struct {
	key *ecdsa.PrivateKey
	kp  *simKeyper
	m   *shmsg.Message
}

// tmBlock makes a shuttermint block of the given messages.
func (s *sim) tmBlock(ms []outMsg) {
	var raw [][]byte
	for _, m := range ms {
		raw = append(raw, s.send(m.key, m.m))
	}
	for i, res := range s.tm.block(raw) {
		if res.Code == 0 {
			s.msgs = append(s.msgs, shMsg{s.tm.height, addrOf(ms[i].key), ms[i].m})
		} else if ms[i].kp != nil && !ms[i].kp.byz {
			s.k.Count("messages of honest keypers the application refused")
			s.k.Seen("refusals", fmt.Sprintf("%T", ms[i].m.Payload))
			s.trace("%s: refused %T: %s", ms[i].kp.name, ms[i].m.Payload, res.Log)
		}
		for _, ev := range res.Events {
			x, err := shutterevents.MakeEvent(ev, s.tm.height)
			must(err)
			switch e := x.(type) {
			case *shutterevents.EonStarted:
				s.eons = append(s.eons, *e)
				s.trace("eon %d starts for batch %d", e.Eon, e.BatchIndex)
			case *shutterevents.BatchConfig:
				s.confs = append(s.confs, simConf{s.tm.height, *e})
				s.trace("shuttermint config %d", e.ConfigIndex)
			}
		}
	}
}

func (s *sim) kp(a common.Address) *simKeyper {
	for _, kp := range s.kps {
		if kp.addr == a {
			return kp
		}
	}
	return nil
}

// bootstrap schedules the first config and tells shuttermint about it.
func (s *sim) bootstrap() {
	start := s.w.head() + 25 + uint64(s.r.Intn(6))
	s.schedule(s.kps[:s.o.n], uint64(s.o.t), uint64(s.r.Intn(3)*0), start)
	c, err := s.w.cfg.GetConfigByIndex(nil, 1)
	must(err)
	s.tmBlock([]outMsg{{s.boot, nil, shmsg.NewBatchConfig(c.StartBatchIndex, c.Keypers, c.Threshold, s.w.addr.config, 1, false, false)},
		{s.boot, nil, shmsg.NewBatchConfigStarted(1)}})
	if len(s.eons) != 1 {
		panic(vt.InfraError("the bootstrap of the simulation fails"))
	}
}

// ref returns the key generation's outcome as it follows from the chain, nil before it's over.
func (s *sim) ref(eon uint64) *refEon {
	if r, ok := s.refs[eon]; ok {
		return r
	}
	var ev *shutterevents.EonStarted
	for i := range s.eons {
		if s.eons[i].Eon == eon {
			ev = &s.eons[i]
		}
	}
	L := int64(s.o.phase)
	if ev == nil || s.tm.height < ev.Height+3*L-1 {
		return nil
	}
	r := &refEon{eon: eon, batch: ev.BatchIndex, start: ev.Height}
	for _, c := range s.confs {
		if c.ev.StartBatchIndex <= ev.BatchIndex && c.height <= ev.Height {
			r.keypers, r.threshold = c.ev.Keypers, c.ev.Threshold
		}
	}
	index := func(a []byte) int {
		for i, x := range r.keypers {
			if bytes.Equal(x[:], a) {
				return i
			}
		}
		return -1
	}
	n := len(r.keypers)
	comm := make([]*shcrypto.Gammas, n)
	accused := make([]map[int]bool, n)
	apology := make([]map[int]*big.Int, n)
	for i := range accused {
		accused[i], apology[i] = map[int]bool{}, map[int]*big.Int{}
	}
	for _, m := range s.msgs {
		i := index(m.sender[:])
		if i < 0 {
			continue
		}
		ph := (m.height - ev.Height) / L
		if m.height < ev.Height {
			continue
		}
		switch p := m.m.Payload.(type) {
		case *shmsg.Message_PolyCommitment:
			if p.PolyCommitment.Eon != eon || ph != 0 || comm[i] != nil {
				continue
			}
			g, ok := gammasOf(p.PolyCommitment.Gammas)
			if ok && g.Degree() == r.threshold-1 {
				comm[i] = g
			}
		case *shmsg.Message_Accusation:
			if p.Accusation.Eon == eon && ph == 1 {
				for _, a := range p.Accusation.Accused {
					accused[index(a)][i] = true
				}
			}
		case *shmsg.Message_Apology:
			if p.Apology.Eon == eon && ph == 2 {
				for j, a := range p.Apology.Accusers {
					v := new(big.Int).SetBytes(p.Apology.PolyEvals[j])
					if _, ok := apology[i][index(a)]; !ok && shcrypto.ValidEval(v) {
						apology[i][index(a)] = v
					}
				}
			}
		}
	}
	var gs []*shcrypto.Gammas
	for i := 0; i < n; i++ {
		ok := comm[i] != nil
		for a := range accused[i] {
			ok = ok && apology[i][a] != nil
		}
		for a, v := range apology[i] {
			ok = ok && shcrypto.VerifyPolyEval(a, v, comm[i], r.threshold)
		}
		r.qualified = append(r.qualified, ok)
		if ok {
			gs = append(gs, comm[i])
			r.nqual++
		}
	}
	if r.nqual >= r.threshold {
		r.pub = shcrypto.ComputeEonPublicKey(gs)
		for i := 0; i < n; i++ {
			r.shares = append(r.shares, shcrypto.ComputeEonPublicKeyShare(i, gs))
		}
	}
	for i, a := range r.keypers {
		r.can = append(r.can, r.pub != nil && !s.kp(a).byz && s.complete(r, i, comm, apology))
	}
	s.refs[eon] = r
	s.trace("eon %d: qualified %v", eon, r.qualified)
	return r
}

// complete tells whether the evaluations of all qualified dealers for keyper i are on chain.
func (s *sim) complete(r *refEon, i int, comm []*shcrypto.Gammas, apology []map[int]*big.Int) bool {
	kp := s.kp(r.keypers[i])
	got := map[common.Address]*big.Int{}
	for _, m := range s.msgs {
		p, ok := m.m.Payload.(*shmsg.Message_PolyEval)
		if !ok || p.PolyEval.Eon != r.eon || m.height < r.start || m.height >= r.start+int64(s.o.phase) || got[m.sender] != nil {
			continue
		}
		for j, a := range p.PolyEval.Receivers {
			if !bytes.Equal(a, kp.addr[:]) {
				continue
			}
			b, err := kp.cfg.EncryptionKey.Decrypt(p.PolyEval.EncryptedEvals[j], nil, nil)
			if err != nil {
				continue
			}
			if v := new(big.Int).SetBytes(b); v.Sign() != 0 && shcrypto.ValidEval(v) {
				got[m.sender] = v
			}
		}
	}
	for j, a := range r.keypers {
		if !r.qualified[j] || j == i || apology[j][i] != nil {
			continue
		}
		if v := got[a]; v == nil || !shcrypto.VerifyPolyEval(i, v, comm[j], r.threshold) {
			return false
		}
	}
	return true
}

// restart saves the keyper's state as it would and loads it again.
func (s *sim) restart(kp *simKeyper) {
	if err := saveState(kp.cfg, kp.st, observe.World{Shutter: kp.sh, MainChain: kp.mc}); err != nil {
		s.k.Failf("save-state", "%s can't save its state: %v", kp.name, err)
		return
	}
	n := keyper.NewKeyper(kp.cfg)
	if err := n.LoadState(); err != nil {
		s.k.Failf("load-state", "%s can't load its state: %v", kp.name, err)
		return
	}
	w := n.CurrentWorld()
	kp.st, kp.sh, kp.mc = n.State, w.Shutter, w.MainChain
	kp.filter = observe.ShutterFilter{}
	s.k.Count("restarts")
}

// step lets a keyper look at the chains and decide.
func (s *sim) step(kp *simKeyper) {
	ctx := context.Background()
	if s.o.restart > 0 && s.r.Intn(100) < s.o.restart && kp.steps > 0 {
		s.restart(kp)
	}
	lagging := func() bool { return !s.quiet && s.o.lag > 0 && s.r.Intn(100) < s.o.lag }
	views := s.r.Perm(2)
	for _, v := range views {
		if v == 0 {
			if lagging() {
				continue
			}
			if kp.slow && !s.quiet && s.r.Intn(8) != 0 {
				continue
			}
			mc, err := kp.mc.SyncToHead(ctx, kp.caller)
			if err != nil {
				panic(vt.InfraError("main chain sync: " + err.Error()))
			}
			kp.mc = mc
		} else {
			if lagging() {
				continue
			}
			sh, err := kp.sh.ApplyFilter(kp.filter).SyncToHead(ctx, s.tm)
			if err != nil {
				panic(vt.InfraError("shuttermint sync: " + err.Error()))
			}
			kp.sh = sh
		}
		if kp.steps == 0 && v == views[0] {
			continue // the first step comes after both were synchronised
		}
		if kp.mc.CurrentBlock == 0 || kp.sh.CurrentBlock < 0 {
			continue
		}
		pre := *kp.st
		var tst *keyper.State
		var tw observe.World
		if s.watch["C27"] && !kp.byz {
			var ok bool
			if tst, tw, ok = s.twin(kp, v == 0); !ok {
				return
			}
		}
		d := keyper.Decider{Config: kp.cfg, State: kp.st, Shutter: kp.sh, MainChain: kp.mc, Actions: []fx.IAction{},
			PhaseLength: keyper.NewConstantPhaseLength(int64(s.o.phase))}
		if msg := vt.NoPanic(d.Decide); msg != "" {
			s.k.Failf("decider-panic", "%s panics when deciding: %s", kp.name, msg)
			return
		}
		if s.r.Intn(4) != 0 {
			kp.filter = kp.st.GetShutterFilter(kp.mc)
		}
		s.k.C.Count("steps", 1)
		if tst != nil {
			s.restartable(kp, d.Actions, tst, tw)
		}
		if s.watch["C27"] && !kp.byz {
			s.saveTwin(kp)
		}
		if !kp.byz && s.mon != nil {
			s.mon(kp, d.Actions, &pre)
		}
		if s.k.Failed() {
			return
		}
		for _, a := range d.Actions {
			if !kp.byz {
				s.trace("%s: %s", kp.name, actionText(a))
			}
			switch x := a.(type) {
			case *fx.SendShuttermintMessage:
				if kp.byz {
					kp.outSh = append(kp.outSh, s.evilMessages(kp, x.Msg)...)
				} else {
					kp.outSh = append(kp.outSh, x.Msg)
					kp.sent = append(kp.sent, x.Msg)
				}
			case fx.MainChainTX:
				if kp.byz {
					kp.outMc = append(kp.outMc, s.evilTXs(kp, x)...)
				} else {
					kp.outMc = append(kp.outMc, x)
				}
			}
		}
	}
	if kp.steps++; kp.steps == 1 {
		kp.since = s.tm.height
	}
	if kp.byz && !s.quiet {
		s.evilExtras(kp)
	}
	s.runMainChain(kp)
}

func actionText(a fx.IAction) string {
	if s, ok := a.(fmt.Stringer); ok {
		return s.String()
	}
	return fmt.Sprintf("%T", a)
}

// runMainChain sends the keyper's main chain transactions in order, as RunEnv does.
func (s *sim) runMainChain(kp *simKeyper) {
	for len(kp.outMc) > 0 {
		a := kp.outMc[0]
		if a.IsExpired(observe.World{Shutter: kp.sh, MainChain: kp.mc}) {
			kp.outMc = kp.outMc[1:]
			s.k.Count("expired actions")
			continue
		}
		auth, err := kp.caller.Auth(context.Background())
		must(err)
		tx, err := a.SendTX(kp.caller, auth)
		if err != nil {
			s.trace("%s: %s fails: %v", kp.name, actionText(a), err)
			if fx.IsRetriable(err) {
				s.k.Count("retries")
				return
			}
			s.k.Count("dropped actions")
			kp.outMc = kp.outMc[1:]
			continue
		}
		kp.flight = append(kp.flight, tx.Hash())
		kp.outMc = kp.outMc[1:]
	}
}

// eonFor returns the last eon that covers a batch.
func (s *sim) eonFor(batch uint64) *refEon {
	for i := len(s.eons) - 1; i >= 0; i-- {
		if s.eons[i].BatchIndex <= batch {
			return s.ref(s.eons[i].Eon)
		}
	}
	return nil
}

// keyedEons returns the eons that cover a batch and have a key.
func (s *sim) keyedEons(batch uint64) (r []*refEon) {
	for _, e := range s.eons {
		if e.BatchIndex <= batch {
			if ref := s.ref(e.Eon); ref != nil && ref.pub != nil {
				r = append(r, ref)
			}
		}
	}
	return
}

// soleEon returns the eon whose key a batch has to be decrypted with, nil if there are none or
// several (when a key generation was repeated, or a new one started for a later batch).
func (s *sim) soleEon(batch uint64) *refEon {
	l := s.keyedEons(batch)
	if len(l) == 0 {
		return nil
	}
	last := l[len(l)-1]
	for _, x := range l[:len(l)-1] {
		if x.batch >= last.batch {
			return nil
		}
	}
	for _, e := range s.eons {
		if e.BatchIndex <= batch && e.Eon > last.eon {
			return nil
		}
	}
	return last
}

// batchAt returns the batch a transaction in the given block can be added to.
func (s *sim) batchAt(block uint64) (uint64, bool) {
	n, err := s.w.cfg.NumConfigs(nil)
	must(err)
	for i := int(n) - 1; i >= 0; i-- {
		c, err := s.w.cfg.ConfigForConfigIndex(nil, uint64(i))
		must(err)
		if c.StartBlockNumber <= block {
			if c.BatchSpan == 0 {
				return 0, false
			}
			return c.StartBatchIndex + (block-c.StartBlockNumber)/c.BatchSpan, true
		}
	}
	return 0, false
}

func epochBytes(e uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, e)
	return b
}

// users adds users' transactions to the current batch.
func (s *sim) users() {
	if s.r.Intn(100) >= s.o.userTxs {
		return
	}
	b, ok := s.batchAt(s.w.head() + 1)
	if !ok {
		return
	}
	for n := 1 + s.r.Intn(3); n > 0; n-- {
		s.uniq++
		plain := []byte(fmt.Sprintf("transaction %d of the user in batch %d", s.uniq, b))
		if s.o.fatTxs {
			plain = append(plain, bytes.Repeat([]byte{byte(s.uniq)}, s.r.Intn(3000))...)
		}
		data := plain
		typ := uint8(contract.TransactionTypePlain)
		ref := s.eonFor(b)
		if s.r.Intn(3) != 0 && ref != nil && ref.pub != nil {
			typ = contract.TransactionTypeCipher
			epoch := b
			kind := s.r.Intn(8)
			if kind == 0 {
				epoch += 1 + uint64(s.r.Intn(2))
			}
			sigma, err := shcrypto.RandomSigma(s.r)
			must(err)
			m := shcrypto.Encrypt(plain, ref.pub, shcrypto.ComputeEpochID(epochBytes(epoch)), sigma)
			data = m.Marshal()
			e := simBatchTx{plain, ref.eon}
			switch kind {
			case 0:
				e.plain = nil // decrypts to garbage or not at all, see wantBatch
			case 1:
				data = data[:s.r.Intn(len(data))]
				if len(data) == 0 {
					data = []byte{7}
				}
				e.plain = nil
			case 2:
				data = []byte(fmt.Sprintf("junk %d", s.uniq))
				e.plain = nil
			}
			s.cipher[string(data)] = e
		}
		s.w.tx(s.user, func(a *bind.TransactOpts) (*types.Transaction, error) { return s.w.bat.AddTransaction(a, b, typ, data) })
		if s.r.Intn(10) == 0 { // the same again
			s.w.tx(s.user, func(a *bind.TransactOpts) (*types.Transaction, error) { return s.w.bat.AddTransaction(a, b, typ, data) })
		}
	}
}

// batchTxs returns a batch's transactions on chain up to block h.
func (s *sim) batchTxs(batch uint64, typ uint8, h uint64) (r [][]byte) {
	s.w.mux.Lock()
	logs := s.w.logs(0, h, []common.Address{s.w.addr.batcher}, nil)
	s.w.mux.Unlock()
	for _, l := range logs {
		if !isEvent(l, "TransactionAdded(uint64,uint8,bytes,bytes32)") {
			continue
		}
		ev, err := s.w.bat.ParseTransactionAdded(*l)
		must(err)
		if ev.BatchIndex == batch && ev.TransactionType == typ {
			r = append(r, ev.Transaction)
		}
	}
	return
}

// truthKey returns a batch's epoch secret key, made from the honest keypers' secrets.
func (s *sim) truthKey(batch uint64, ref *refEon) *shcrypto.EpochSecretKey {
	id := shcrypto.ComputeEpochID(epochBytes(batch))
	var idx []int
	var sh []*shcrypto.EpochSecretKeyShare
	for i, a := range ref.keypers {
		kp := s.kp(a)
		if uint64(len(idx)) == ref.threshold {
			break
		}
		for _, ekg := range kp.st.EKGs {
			if ekg.Eon != ref.eon {
				continue
			}
			x := shcrypto.ComputeEpochSecretKeyShare(ekg.EpochKG.SecretKeyShare, id)
			if shcrypto.VerifyEpochSecretKeyShare(x, ref.shares[i], id) {
				idx, sh = append(idx, i), append(sh, x)
			}
			break
		}
	}
	if uint64(len(idx)) < ref.threshold {
		return nil
	}
	key, err := shcrypto.ComputeEpochSecretKey(idx, sh, ref.threshold)
	must(err)
	ok, err := shcrypto.VerifyEpochSecretKey(key, ref.pub, epochBytes(batch))
	must(err)
	if !ok {
		panic(vt.InfraError("the simulation's epoch key is wrong"))
	}
	return key
}

// wantBatch is the list of decrypted transactions that has to be executed for a batch.
func (s *sim) wantBatch(batch uint64, ref *refEon, h uint64) ([][]byte, bool) {
	enc := s.batchTxs(batch, contract.TransactionTypeCipher, h)
	if len(enc) == 0 {
		return nil, true
	}
	key := s.truthKey(batch, ref)
	if key == nil {
		return nil, false
	}
	var plain [][]byte
	for _, c := range enc {
		if e, ok := s.cipher[string(c)]; ok && e.plain != nil && e.eon == ref.eon {
			plain = append(plain, e.plain)
			// the user's transaction has to come out, whatever the keyper does
			continue
		}
		// not for this key: whatever the library makes of it
		var m shcrypto.EncryptedMessage
		if m.Unmarshal(c) != nil {
			continue
		}
		if p, err := m.Decrypt(key); err == nil {
			plain = append(plain, p)
		}
	}
	return shcrypto.Shuffle(plain, key), true
}

// round advances everything by one tick.
func (s *sim) round() {
	s.tick++
	if !s.quiet {
		s.users()
	}
	if s.o.reorgs && !s.quiet && s.o.follow > 0 && s.r.Intn(6) == 0 && s.w.head() > 40 {
		n := 1 + s.r.Intn(int(s.o.follow))
		s.w.reorg(n, nil)
		for i := 0; i < n; i++ {
			s.w.mine(func(int, *types.Transaction) bool { return s.r.Intn(3) != 0 })
		}
		s.k.Count("reorganisations")
	}
	if s.quiet || s.o.lag == 0 || s.r.Intn(5) != 0 {
		s.w.mine(nil)
	} else {
		s.w.mine(func(int, *types.Transaction) bool { return s.r.Intn(2) == 0 })
	}
	var ms []outMsg
	for _, kp := range s.kps {
		if len(kp.outSh) == 0 || kp.away > 0 || !s.quiet && s.o.lag > 0 && s.r.Intn(100) < s.o.lag {
			continue
		}
		if kp.byz { // not limited by waiting for its own messages
			for _, m := range kp.outSh {
				ms = append(ms, outMsg{kp.key, kp, m})
			}
			kp.outSh = nil
			continue
		}
		ms = append(ms, outMsg{kp.key, kp, kp.outSh[0]})
		kp.outSh = kp.outSh[1:]
	}
	s.r.Shuffle(len(ms), func(i, j int) {
		if ms[i].kp != ms[j].kp {
			ms[i], ms[j] = ms[j], ms[i]
		}
	})
	s.tmBlock(ms)
	for _, i := range s.r.Perm(len(s.kps)) {
		if s.absent(s.kps[i]) {
			continue
		}
		s.step(s.kps[i])
		if s.k.Failed() {
			return
		}
	}
}

// absent tells whether a keyper stays away for this tick.
func (s *sim) absent(kp *simKeyper) bool {
	if s.quiet {
		kp.away = 0
		return false
	}
	if kp.away == 0 && s.o.outage > 0 && s.r.Intn(s.o.outage) == 0 {
		kp.away = 2 + s.r.Intn(1+s.r.Intn(4*s.o.phase))
		s.trace("%s stays away for %d ticks", kp.name, kp.away-1)
		s.k.Count("keypers away for a while")
	}
	if s.o.across && s.change > 0 && s.w.head() == s.change && s.r.Intn(2) == 0 {
		kp.away = 8 + s.r.Intn(52)
		if s.r.Intn(2) == 0 { // about the time in which batches of the first config time out
			kp.away = int(s.timeout1) - 2 + s.r.Intn(14)
		}
		s.trace("%s stays away for %d ticks", kp.name, kp.away-1)
		s.k.Count("keypers away at the change of the config")
	}
	if kp.away == 0 {
		return false
	}
	if kp.away--; kp.away > 0 {
		return true
	}
	if kp.steps > 0 && s.r.Intn(3) != 0 {
		s.restart(kp)
	}
	return false
}
