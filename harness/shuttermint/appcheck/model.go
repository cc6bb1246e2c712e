package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/google"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

// The reference model of the shuttermint application, written from the protocol rules. It shares
// only the generated protobuf types with the code under test.

// Categories say which rule decided the outcome of a transaction.
const (
	catAuth   = "auth"
	catConfig = "config"
	catStart  = "start"
	catDKG    = "dkg"
	catCheck  = "checktx"
)

type mConfig struct {
	start, threshold, index uint64
	keypers                 []common.Address
	contract                common.Address
	started, updated        bool
}

func (c *mConfig) has(a common.Address) bool {
	for _, k := range c.keypers {
		if k == a {
			return true
		}
	}
	return false
}

func (c *mConfig) key() string {
	return fmt.Sprintf("%d/%d/%d/%x/%x/%v/%v", c.start, c.threshold, c.index, c.keypers, c.contract, c.started, c.updated)
}

type mPair struct{ a, b common.Address }

type mDKG struct {
	cfg                mConfig
	evals              map[mPair]bool
	comm, accus, apols map[common.Address]bool
}

type mUpdate struct {
	key   string
	power int64
}

type model struct {
	chain        string
	configs      []*mConfig
	votes        map[common.Address]string
	eonVotes     map[uint64]map[common.Address]uint64
	identities   map[common.Address]string
	startedVotes map[common.Address]bool
	validators   map[string]int64
	dkgs         map[uint64]*mDKG
	eon          uint64
	sigs         map[uint64]map[common.Address]bool
	nonces       map[common.Address]map[uint64]bool
	ctNonces     map[common.Address]map[uint64]bool
	ctCount      map[common.Address]int
	devMode      bool
	height       int64
}

func newModel(chain string, keypers []common.Address, threshold uint64, validators map[string]int64, dev bool) *model {
	m := &model{
		chain:        chain,
		configs:      []*mConfig{{threshold: threshold, keypers: keypers}},
		votes:        map[common.Address]string{},
		eonVotes:     map[uint64]map[common.Address]uint64{},
		identities:   map[common.Address]string{},
		startedVotes: map[common.Address]bool{},
		validators:   map[string]int64{},
		dkgs:         map[uint64]*mDKG{},
		sigs:         map[uint64]map[common.Address]bool{},
		nonces:       map[common.Address]map[uint64]bool{},
		devMode:      dev,
	}
	for k, v := range validators {
		m.validators[k] = v
	}
	m.commit()
	return m
}

func (m *model) commit() {
	m.ctNonces = map[common.Address]map[uint64]bool{}
	m.ctCount = map[common.Address]int{}
}

func (m *model) last() *mConfig { return m.configs[len(m.configs)-1] }

func (m *model) configFor(batch uint64) *mConfig {
	for i := len(m.configs) - 1; i >= 0; i-- {
		if m.configs[i].start <= batch {
			return m.configs[i]
		}
	}
	panic("no config for batch")
}

// recoverSigner determines who signed the message, independently of package shmsg.
func recoverSigner(signed []byte) (common.Address, bool) {
	if len(signed) < 65 {
		return common.Address{}, false
	}
	h := sha3.New256()
	_, _ = h.Write([]byte("\x19shmsg"))
	_, _ = h.Write(signed[65:])
	pub, err := crypto.Ecrecover(h.Sum(nil), signed[:65])
	if err != nil {
		return common.Address{}, false
	}
	return common.BytesToAddress(crypto.Keccak256(pub[1:])[12:]), true
}

func decodeTx(tx []byte) (common.Address, *shmsg.MessageWithNonce, bool) {
	signed, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return common.Address{}, nil, false
	}
	signer, ok := recoverSigner(signed)
	if !ok {
		return common.Address{}, nil, false
	}
	msg := &shmsg.MessageWithNonce{}
	if proto.Unmarshal(signed[65:], msg) != nil {
		return common.Address{}, nil, false
	}
	return signer, msg, true
}

type outcome struct {
	ok     bool
	events []string
	cat    string
	why    string
}

func no(cat, why string) outcome { return outcome{false, nil, cat, why} }

func (m *model) checkTx(tx []byte) (bool, string) {
	signer, msg, ok := decodeTx(tx)
	if !ok {
		return false, "undecodable"
	}
	if string(msg.ChainId) != m.chain {
		return false, "chain"
	}
	if m.nonces[signer][msg.RandomNonce] {
		return false, "nonce delivered"
	}
	member := false
	for _, c := range m.configs {
		member = member || c.has(signer)
	}
	if !member {
		return false, "not a member"
	}
	if m.ctCount[signer] >= 10 {
		return false, "limit"
	}
	if m.ctNonces[signer][msg.RandomNonce] {
		return false, "nonce pending"
	}
	m.ctCount[signer]++
	if m.ctNonces[signer] == nil {
		m.ctNonces[signer] = map[uint64]bool{}
	}
	m.ctNonces[signer][msg.RandomNonce] = true
	return true, "accepted"
}

func (m *model) deliver(tx []byte) outcome {
	signer, msg, ok := decodeTx(tx)
	if !ok {
		return no(catAuth, "undecodable")
	}
	if string(msg.ChainId) != m.chain {
		return no(catAuth, "chain")
	}
	if m.nonces[signer][msg.RandomNonce] {
		return no(catAuth, "nonce")
	}
	if m.nonces[signer] == nil {
		m.nonces[signer] = map[uint64]bool{}
	}
	m.nonces[signer][msg.RandomNonce] = true
	b := msg.Msg
	switch {
	case b.GetBatchConfig() != nil:
		return m.batchConfig(b.GetBatchConfig(), signer)
	case b.GetBatchConfigStarted() != nil:
		return m.configStarted(b.GetBatchConfigStarted(), signer)
	case b.GetCheckIn() != nil:
		return m.checkIn(b.GetCheckIn(), signer)
	case b.GetEonStartVote() != nil:
		return m.eonVote(b.GetEonStartVote(), signer)
	case b.GetDecryptionSignature() != nil:
		return m.decryptionSignature(b.GetDecryptionSignature(), signer)
	case b.GetPolyEval() != nil:
		return m.polyEval(b.GetPolyEval(), signer)
	case b.GetPolyCommitment() != nil:
		return m.polyCommitment(b.GetPolyCommitment(), signer)
	case b.GetAccusation() != nil:
		return m.accusation(b.GetAccusation(), signer)
	case b.GetApology() != nil:
		return m.apology(b.GetApology(), signer)
	case b.GetEpochSecretKeyShare() != nil:
		return m.keyShare(b.GetEpochSecretKeyShare(), signer)
	}
	return no(catAuth, "no payload")
}

func addrs(bs [][]byte) ([]common.Address, bool) {
	seen := map[common.Address]bool{}
	res := []common.Address{}
	for _, b := range bs {
		if len(b) != 20 {
			return nil, false
		}
		a := common.BytesToAddress(b)
		if seen[a] {
			return nil, false
		}
		seen[a] = true
		res = append(res, a)
	}
	return res, true
}

func addrList(as []common.Address) string {
	l := []string{}
	for _, a := range as {
		l = append(l, hex.EncodeToString(a[:]))
	}
	return strings.Join(l, ",")
}

func (m *model) startDKG(c *mConfig) uint64 {
	m.eon++
	cp := *c
	m.dkgs[m.eon] = &mDKG{cfg: cp, evals: map[mPair]bool{}, comm: map[common.Address]bool{}, accus: map[common.Address]bool{}, apols: map[common.Address]bool{}}
	return m.eon
}

func (m *model) batchConfig(msg *shmsg.BatchConfig, sender common.Address) outcome {
	ks, ok := addrs(msg.Keypers)
	if !ok || len(msg.ConfigContractAddress) != 20 {
		return no(catConfig, "malformed config")
	}
	c := &mConfig{
		start: msg.StartBatchIndex, threshold: msg.Threshold, index: msg.ConfigIndex, keypers: ks,
		contract: common.BytesToAddress(msg.ConfigContractAddress), started: msg.Started, updated: msg.ValidatorsUpdated,
	}
	last := m.last()
	if c.key() == last.key() {
		return outcome{true, nil, catConfig, "already accepted"}
	}
	switch {
	case len(ks) == 0:
		return no(catConfig, "no keypers")
	case c.threshold == 0:
		return no(catConfig, "threshold 0")
	case c.threshold > uint64(len(ks)):
		return no(catConfig, "threshold too high")
	case c.start < last.start:
		return no(catConfig, "start decreases")
	case c.index <= last.index:
		return no(catConfig, "index doesn't grow")
	case !last.has(sender):
		return no(catConfig, "voter is no keyper")
	}
	if _, voted := m.votes[sender]; voted {
		return no(catConfig, "voted already")
	}
	m.votes[sender] = c.key()
	n := uint64(0)
	for _, v := range m.votes {
		if v == c.key() {
			n++
		}
	}
	if n < last.threshold {
		return outcome{true, nil, catConfig, "vote counted"}
	}
	m.votes = map[common.Address]string{}
	m.configs = append(m.configs, c)
	m.startedVotes = map[common.Address]bool{}
	evs := []string{fmt.Sprintf("config start=%d threshold=%d index=%d keypers=%s", c.start, c.threshold, c.index, addrList(ks))}
	prev := m.dkgs[m.eon]
	if prev == nil || prev.cfg.threshold != c.threshold || addrList(prev.cfg.keypers) != addrList(c.keypers) {
		eon := m.startDKG(c)
		evs = append(evs, fmt.Sprintf("eon-started eon=%d batch=%d", eon, c.start))
	}
	return outcome{true, evs, catConfig, "accepted"}
}

func (m *model) configStarted(msg *shmsg.BatchConfigStarted, sender common.Address) outcome {
	last := m.last()
	if msg.BatchConfigIndex != last.index {
		return no(catStart, "not the last config")
	}
	if len(m.configs) < 2 {
		return no(catStart, "genesis only")
	}
	if !m.configs[len(m.configs)-2].has(sender) {
		return no(catStart, "not a keyper of the current config")
	}
	if !last.started {
		m.startedVotes[sender] = true
	}
	return outcome{true, nil, catStart, "start vote"}
}

func (m *model) checkIn(msg *shmsg.CheckIn, sender common.Address) outcome {
	if _, ok := m.identities[sender]; ok {
		return no(catStart, "checked in already")
	}
	keyper := false
	for _, c := range m.configs {
		keyper = keyper || c.has(sender)
	}
	if !keyper {
		return no(catStart, "not a keyper")
	}
	if len(msg.ValidatorPublicKey) != 32 {
		return no(catStart, "bad validator key")
	}
	if _, err := crypto.DecompressPubkey(msg.EncryptionPublicKey); err != nil {
		return no(catStart, "bad encryption key")
	}
	m.identities[sender] = string(msg.ValidatorPublicKey)
	return outcome{true, []string{fmt.Sprintf("check-in sender=%x key=%x", sender, msg.EncryptionPublicKey)}, catStart, "checked in"}
}

func (m *model) eonVote(msg *shmsg.EonStartVote, sender common.Address) outcome {
	c := m.configFor(msg.StartBatchIndex)
	if !c.has(sender) {
		return no(catDKG, "eon vote: not a keyper")
	}
	if m.eonVotes[c.index] == nil {
		m.eonVotes[c.index] = map[common.Address]uint64{}
	}
	m.eonVotes[c.index][sender] = msg.StartBatchIndex
	n := uint64(0)
	for _, b := range m.eonVotes[c.index] {
		if b == msg.StartBatchIndex {
			n++
		}
	}
	if n < c.threshold {
		return outcome{true, nil, catDKG, "eon vote counted"}
	}
	delete(m.eonVotes, c.index)
	return outcome{true, []string{fmt.Sprintf("eon-started eon=%d batch=%d", m.startDKG(c), msg.StartBatchIndex)}, catDKG, "eon started"}
}

func (m *model) decryptionSignature(msg *shmsg.DecryptionSignature, sender common.Address) outcome {
	if !m.configFor(msg.BatchIndex).has(sender) {
		return no(catDKG, "signature: not a keyper")
	}
	if m.sigs[msg.BatchIndex][sender] {
		return no(catDKG, "signature: duplicate")
	}
	if m.sigs[msg.BatchIndex] == nil {
		m.sigs[msg.BatchIndex] = map[common.Address]bool{}
	}
	m.sigs[msg.BatchIndex][sender] = true
	return outcome{true, []string{fmt.Sprintf("decryption-signature batch=%d sender=%x sig=%x", msg.BatchIndex, sender, msg.Signature)}, catDKG, "signature"}
}

func hexList(bs [][]byte) string {
	l := []string{}
	for _, b := range bs {
		l = append(l, hex.EncodeToString(b))
	}
	return fmt.Sprintf("%d:%s", len(bs), strings.Join(l, ","))
}

func (m *model) polyEval(msg *shmsg.PolyEval, sender common.Address) outcome {
	d := m.dkgs[msg.Eon]
	rs, ok := addrs(msg.Receivers)
	switch {
	case len(msg.Receivers) != len(msg.EncryptedEvals):
		return no(catDKG, "poly eval: lengths differ")
	case !ok:
		return no(catDKG, "poly eval: bad receivers")
	case d == nil:
		return no(catDKG, "poly eval: no such eon")
	case !d.cfg.has(sender):
		return no(catDKG, "poly eval: not a keyper")
	}
	for _, r := range rs {
		if !d.cfg.has(r) || r == sender {
			return no(catDKG, "poly eval: bad receiver")
		}
		if d.evals[mPair{sender, r}] {
			return no(catDKG, "poly eval: duplicate")
		}
	}
	for _, r := range rs {
		d.evals[mPair{sender, r}] = true
	}
	return outcome{true, []string{fmt.Sprintf("poly-eval eon=%d sender=%x receivers=%s evals=%s", msg.Eon, sender, addrList(rs), hexList(msg.EncryptedEvals))}, catDKG, "poly eval"}
}

func (m *model) polyCommitment(msg *shmsg.PolyCommitment, sender common.Address) outcome {
	d := m.dkgs[msg.Eon]
	for _, g := range msg.Gammas {
		if _, err := new(bn256.G2).Unmarshal(g); err != nil {
			return no(catDKG, "commitment: bad point")
		}
	}
	switch {
	case d == nil:
		return no(catDKG, "commitment: no such eon")
	case !d.cfg.has(sender):
		return no(catDKG, "commitment: not a keyper")
	case d.comm[sender]:
		return no(catDKG, "commitment: duplicate")
	}
	d.comm[sender] = true
	return outcome{true, []string{fmt.Sprintf("poly-commitment eon=%d sender=%x gammas=%s", msg.Eon, sender, hexList(msg.Gammas))}, catDKG, "commitment"}
}

func (m *model) accusation(msg *shmsg.Accusation, sender common.Address) outcome {
	d := m.dkgs[msg.Eon]
	as, ok := addrs(msg.Accused)
	switch {
	case !ok:
		return no(catDKG, "accusation: bad accused")
	case d == nil:
		return no(catDKG, "accusation: no such eon")
	case !d.cfg.has(sender):
		return no(catDKG, "accusation: not a keyper")
	}
	for _, a := range as {
		if !d.cfg.has(a) || a == sender {
			return no(catDKG, "accusation: bad accused")
		}
	}
	if d.accus[sender] {
		return no(catDKG, "accusation: duplicate")
	}
	d.accus[sender] = true
	return outcome{true, []string{fmt.Sprintf("accusation eon=%d sender=%x accused=%s", msg.Eon, sender, addrList(as))}, catDKG, "accusation"}
}

func (m *model) apology(msg *shmsg.Apology, sender common.Address) outcome {
	d := m.dkgs[msg.Eon]
	as, ok := addrs(msg.Accusers)
	switch {
	case len(msg.Accusers) != len(msg.PolyEvals):
		return no(catDKG, "apology: lengths differ")
	case !ok:
		return no(catDKG, "apology: bad accusers")
	case d == nil:
		return no(catDKG, "apology: no such eon")
	case !d.cfg.has(sender):
		return no(catDKG, "apology: not a keyper")
	}
	for _, a := range as {
		if !d.cfg.has(a) || a == sender {
			return no(catDKG, "apology: bad accuser")
		}
	}
	if d.apols[sender] {
		return no(catDKG, "apology: duplicate")
	}
	d.apols[sender] = true
	nums := []string{}
	for _, e := range msg.PolyEvals {
		nums = append(nums, new(big.Int).SetBytes(e).String())
	}
	return outcome{true, []string{fmt.Sprintf("apology eon=%d sender=%x accusers=%s evals=%s", msg.Eon, sender, addrList(as), strings.Join(nums, ","))}, catDKG, "apology"}
}

func (m *model) keyShare(msg *shmsg.EpochSecretKeyShare, sender common.Address) outcome {
	if _, err := new(bn256.G1).Unmarshal(msg.Share); err != nil {
		return no(catDKG, "key share: bad point")
	}
	return outcome{true, []string{fmt.Sprintf("key-share eon=%d epoch=%d sender=%x share=%x", msg.Eon, msg.Epoch, sender, msg.Share)}, catDKG, "key share"}
}

func (m *model) endBlock(height int64) []mUpdate {
	m.height = height
	last := m.last()
	if len(m.configs) >= 2 && uint64(len(m.startedVotes)) >= m.configs[len(m.configs)-2].threshold {
		last.started = true
		m.startedVotes = map[common.Address]bool{}
	}
	if last.started && !last.updated {
		n := uint64(0)
		for _, k := range last.keypers {
			if _, ok := m.identities[k]; ok {
				n++
			}
		}
		if n >= last.threshold {
			last.updated = true
		}
	}
	next := m.validators
	for i := len(m.configs) - 1; i >= 0; i-- {
		if c := m.configs[i]; c.started && c.updated {
			next = map[string]int64{}
			for _, k := range c.keypers {
				id, ok := m.identities[k]
				if !ok {
					id = noValidator
				}
				next[id] += 10
			}
			break
		}
	}
	ups := []mUpdate{}
	for k := range m.validators {
		if _, ok := next[k]; !ok {
			ups = append(ups, mUpdate{k, 0})
		}
	}
	for k, p := range next {
		if m.validators[k] != p {
			ups = append(ups, mUpdate{k, p})
		}
	}
	m.validators = next
	if m.devMode {
		return nil
	}
	sort.Slice(ups, func(i, j int) bool { return bytes.Compare([]byte(ups[i].key), []byte(ups[j].key)) < 0 })
	return ups
}

var noValidator = "novalidator" + strings.Repeat("\x00", 21)
