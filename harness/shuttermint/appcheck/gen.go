package main

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

type actor struct {
	key  *ecdsa.PrivateKey
	addr common.Address
	val  []byte // validator key
	enc  []byte // compressed encryption key
}

func makeActor(i int) actor {
	h := sha256.Sum256([]byte(fmt.Sprintf("actor %d", i)))
	k, err := crypto.ToECDSA(h[:])
	if err != nil {
		panic(err)
	}
	v := sha256.Sum256([]byte(fmt.Sprintf("validator %d", i)))
	if i%3 != 0 {
		// validator keys that differ in a few bits or bytes only
		c := sha256.Sum256([]byte("validators"))
		c[31-i%2*30] ^= v[0] | 1<<uint(i%8)
		v = c
	}
	return actor{k, crypto.PubkeyToAddress(k.PublicKey), v[:], crypto.CompressPubkey(&k.PublicKey)}
}

var actors = func() []actor {
	var l []actor
	for i := 0; i < 12; i++ {
		l = append(l, makeActor(i))
	}
	return l
}()

// points known to be valid, and broken ones
var g1Points, g2Points = func() (a, b [][]byte) {
	for i := int64(1); i < 12; i++ {
		a = append(a, new(bn256.G1).ScalarBaseMult(big.NewInt(i*7919)).Marshal())
		b = append(b, new(bn256.G2).ScalarBaseMult(big.NewInt(i*104729)).Marshal())
	}
	return
}()

// tx is a generated transaction.
type gtx struct {
	raw  []byte
	desc string
}

// gen produces transactions for one scenario; it looks at the model only to aim at interesting
// values.
type gen struct {
	r       *rand.Rand
	m       *model
	chain   string
	nonce   uint64
	used    map[common.Address][]uint64
	past    []gtx
	signeds [][]byte // signed messages of past transactions
	// current campaign: a config and an eon start many keypers vote for
	camp    *shmsg.BatchConfig
	campEon uint64
	// weights per kind
	weights map[string]int
	kinds   []string
	hostile int // percent of hostile envelope
}

var allKinds = []string{"config", "start", "checkin", "eon", "sig", "eval", "comm", "accus", "apol", "share", "none", "replay"}

func newGen(r *rand.Rand, m *model, focus string) *gen {
	g := &gen{r: r, m: m, chain: m.chain, weights: map[string]int{}, hostile: 6}
	for _, k := range allKinds {
		g.weights[k] = 1 + r.Intn(6)
	}
	g.weights["none"] = 1
	g.weights["config"] += 4
	g.weights["eon"] += 2
	switch focus {
	case catAuth:
		g.hostile = 25
		g.weights["replay"] = 12
	case catConfig:
		g.weights["config"] = 40
		g.weights["start"] = 8
	case catStart:
		g.weights["config"] = 16
		g.weights["start"] = 16
		g.weights["checkin"] = 12
	case catDKG:
		for _, k := range []string{"eon", "sig", "eval", "comm", "accus", "apol"} {
			g.weights[k] = 4 + r.Intn(10)
		}
	}
	for k := range g.weights {
		g.kinds = append(g.kinds, k)
	}
	g.kinds = g.kinds[:0]
	for _, k := range allKinds {
		for i := 0; i < g.weights[k]; i++ {
			g.kinds = append(g.kinds, k)
		}
	}
	return g
}

func (g *gen) actor() actor {
	// prefer current keypers
	if g.r.Intn(4) > 0 {
		ks := g.m.last().keypers
		if g.r.Intn(3) == 0 {
			ks = g.m.configs[g.r.Intn(len(g.m.configs))].keypers
		}
		if len(ks) > 0 {
			a := ks[g.r.Intn(len(ks))]
			for _, x := range actors {
				if x.addr == a {
					return x
				}
			}
		}
	}
	return actors[g.r.Intn(len(actors))]
}

func (g *gen) addrSet(max int) [][]byte {
	n := g.r.Intn(max + 1)
	res := [][]byte{}
	var base []common.Address
	if g.r.Intn(3) > 0 {
		base = append(base, g.m.last().keypers...)
		if d := g.m.dkgs[g.m.eon]; d != nil && g.r.Intn(2) == 0 {
			base = append([]common.Address{}, d.cfg.keypers...)
		}
	}
	if len(base) == 0 {
		for _, a := range actors[:8] {
			base = append(base, a.addr)
		}
	}
	g.r.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
	for i := 0; i < n && i < len(base); i++ {
		res = append(res, base[i].Bytes())
	}
	if g.r.Intn(14) == 0 && len(res) > 0 {
		switch g.r.Intn(4) {
		case 0: // wrong length
			res[0] = res[0][:g.r.Intn(20)]
		case 1:
			res[0] = append(append([]byte{}, res[0]...), 1)
		case 2: // duplicate
			res = append(res, res[0])
		case 3:
			res = append(res, make([]byte, 20))
		}
	}
	return res
}

func (g *gen) newCampaign() {
	last := g.m.last()
	n := 1 + g.r.Intn(7)
	perm := g.r.Perm(len(actors))
	var ks [][]byte
	if g.r.Intn(4) == 0 {
		for _, k := range last.keypers {
			ks = append(ks, k.Bytes())
		}
	} else {
		for _, i := range perm[:n] {
			ks = append(ks, actors[i].addr.Bytes())
		}
	}
	c := &shmsg.BatchConfig{
		StartBatchIndex:       last.start + uint64(g.r.Intn(4))*uint64(g.r.Intn(4)),
		Keypers:               ks,
		Threshold:             1 + uint64(g.r.Intn(len(ks))),
		ConfigContractAddress: actors[0].addr.Bytes(),
		ConfigIndex:           last.index + 1 + uint64(g.r.Intn(2)),
	}
	g.camp = c
}

func (g *gen) batchConfig() *shmsg.BatchConfig {
	last := g.m.last()
	if g.camp == nil || g.camp.ConfigIndex <= last.index || g.r.Intn(25) == 0 {
		if g.camp != nil && g.r.Intn(3) == 0 {
			return proto.Clone(g.camp).(*shmsg.BatchConfig) // late vote
		}
		g.newCampaign()
	}
	c := proto.Clone(g.camp).(*shmsg.BatchConfig)
	if g.r.Intn(4) > 0 {
		return c
	}
	switch g.r.Intn(12) {
	case 0:
		c.Threshold = 0
	case 1:
		c.Threshold = uint64(len(c.Keypers) + 1)
	case 2:
		c.Threshold = []uint64{1 << 63, math.MaxUint64, 1<<63 + 1, 1 << 62, 1 << 32}[g.r.Intn(5)]
	case 3:
		if last.start > 0 {
			c.StartBatchIndex = uint64(g.r.Int63n(int64(last.start)))
		}
	case 4:
		c.ConfigIndex = last.index
	case 5:
		c.ConfigIndex = uint64(g.r.Intn(int(last.index%1000) + 1))
	case 6:
		c.Keypers = nil
	case 7:
		c.Keypers[0] = c.Keypers[0][:19]
	case 8:
		c.Keypers = append(c.Keypers, c.Keypers[0])
	case 9:
		c.ConfigContractAddress = c.ConfigContractAddress[:g.r.Intn(20)]
	case 10:
		// a competing candidate that differs in one respect
		switch g.r.Intn(5) {
		case 0:
			c.StartBatchIndex++
		case 1:
			c.ConfigContractAddress = actors[1].addr.Bytes()
		case 2:
			g.r.Shuffle(len(c.Keypers), func(i, j int) { c.Keypers[i], c.Keypers[j] = c.Keypers[j], c.Keypers[i] })
		case 3:
			c.Threshold = 1 + uint64(g.r.Intn(len(c.Keypers)))
		case 4:
			c.ConfigIndex++
		}
	case 11:
		// the config accepted last
		for _, k := range last.keypers {
			_ = k
		}
		var ks [][]byte
		for _, k := range last.keypers {
			ks = append(ks, k.Bytes())
		}
		c = &shmsg.BatchConfig{StartBatchIndex: last.start, Keypers: ks, Threshold: last.threshold, ConfigContractAddress: last.contract.Bytes(), ConfigIndex: last.index, Started: last.started, ValidatorsUpdated: last.updated}
		if g.r.Intn(3) == 0 {
			c.Started = !c.Started
		}
	}
	return c
}

func (g *gen) eonNum() uint64 {
	switch g.r.Intn(12) {
	case 0:
		return g.m.eon + 1
	case 1:
		return 0
	case 2:
		return math.MaxUint64
	case 3, 4:
		if g.m.eon > 0 {
			return 1 + uint64(g.r.Int63n(int64(g.m.eon)))
		}
	}
	return g.m.eon
}

func (g *gen) batchIndex() uint64 {
	c := g.m.configs[g.r.Intn(len(g.m.configs))]
	switch g.r.Intn(6) {
	case 0:
		return c.start
	case 1:
		if c.start > 0 {
			return c.start - 1
		}
	case 2:
		return uint64(g.r.Intn(30))
	case 3:
		return math.MaxUint64
	}
	return g.m.last().start + uint64(g.r.Intn(3))
}

func (g *gen) blob() []byte {
	b := make([]byte, g.r.Intn(40))
	g.r.Read(b)
	return b
}

func (g *gen) payload(kind string) *shmsg.Message {
	switch kind {
	case "config":
		return &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: g.batchConfig()}}
	case "start":
		idx := g.m.last().index
		if g.r.Intn(8) == 0 {
			idx = uint64(g.r.Intn(int(idx%1000) + 3))
		}
		return shmsg.NewBatchConfigStarted(idx)
	case "checkin":
		return nil // needs the actor
	case "eon":
		if g.r.Intn(3) == 0 {
			g.campEon = g.batchIndex()
		}
		b := g.campEon
		if g.r.Intn(5) == 0 {
			b = g.batchIndex()
		}
		return shmsg.NewEonStartVote(b)
	case "sig":
		return shmsg.NewDecryptionSignature(g.batchIndex(), g.blob())
	case "eval":
		rs := g.addrSet(5)
		var es [][]byte
		for range rs {
			es = append(es, g.blob())
		}
		if g.r.Intn(12) == 0 {
			if len(es) > 0 && g.r.Intn(2) == 0 {
				es = es[1:]
			} else {
				es = append(es, g.blob())
			}
		}
		return &shmsg.Message{Payload: &shmsg.Message_PolyEval{PolyEval: &shmsg.PolyEval{Eon: g.eonNum(), Receivers: rs, EncryptedEvals: es}}}
	case "comm":
		var gs [][]byte
		for i := g.r.Intn(5); i > 0; i-- {
			gs = append(gs, g2Points[g.r.Intn(len(g2Points))])
		}
		if g.r.Intn(8) == 0 && len(gs) > 0 {
			b := append([]byte{}, gs[0]...)
			switch g.r.Intn(4) {
			case 0:
				b = b[:g.r.Intn(128)]
			case 1:
				b[127] ^= 1
			case 2:
				b = []byte{}
			case 3: // the neutral element
				b = make([]byte, 128)
			}
			gs[g.r.Intn(len(gs))] = b
		}
		return &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: g.eonNum(), Gammas: gs}}}
	case "accus":
		return &shmsg.Message{Payload: &shmsg.Message_Accusation{Accusation: &shmsg.Accusation{Eon: g.eonNum(), Accused: g.addrSet(4)}}}
	case "apol":
		as := g.addrSet(4)
		var es [][]byte
		for range as {
			es = append(es, g.blob())
		}
		if g.r.Intn(12) == 0 {
			es = append(es, g.blob())
		}
		return &shmsg.Message{Payload: &shmsg.Message_Apology{Apology: &shmsg.Apology{Eon: g.eonNum(), Accusers: as, PolyEvals: es}}}
	case "share":
		b := append([]byte{}, g1Points[g.r.Intn(len(g1Points))]...)
		switch g.r.Intn(10) {
		case 0:
			b = b[:g.r.Intn(64)]
		case 1:
			b[63] ^= 1
		case 2:
			b = nil
		}
		return &shmsg.Message{Payload: &shmsg.Message_EpochSecretKeyShare{EpochSecretKeyShare: &shmsg.EpochSecretKeyShare{Eon: g.eonNum(), Epoch: g.batchIndex(), Share: b}}}
	}
	switch g.r.Intn(3) {
	case 0:
		return nil
	case 1:
		return &shmsg.Message{}
	}
	// a payload whose inner message is empty
	return &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{}}}
}

func (g *gen) checkin(a actor) *shmsg.Message {
	val, enc := a.val, a.enc
	switch g.r.Intn(12) {
	case 0:
		val = val[:g.r.Intn(32)]
	case 1:
		val = append(append([]byte{}, val...), 0)
	case 2:
		enc = enc[:g.r.Intn(33)]
	case 3:
		enc = append([]byte{7}, enc[1:]...)
	case 4:
		enc = nil
	case 5:
		val = actors[0].val // shared validator key
	case 6:
		val = []byte(noValidator)
	}
	return &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{ValidatorPublicKey: val, EncryptionPublicKey: enc}}}
}

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// malleate returns the other signature that is valid for the same message and key.
func malleate(signed []byte) []byte {
	s := append([]byte{}, signed...)
	v := new(big.Int).Sub(curveN, new(big.Int).SetBytes(s[32:64]))
	v.FillBytes(s[32:64])
	s[64] ^= 1
	return s
}

func b64(b []byte) []byte { return []byte(base64.RawURLEncoding.EncodeToString(b)) }

// next returns the next transaction.
func (g *gen) next() gtx {
	kind := g.kinds[g.r.Intn(len(g.kinds))]
	if kind == "replay" {
		if len(g.past) > 0 {
			i := g.r.Intn(len(g.past))
			if g.r.Intn(2) == 0 { // a recent one
				i = len(g.past) - 1 - g.r.Intn(minInt(5, len(g.past)))
			}
			switch g.r.Intn(4) {
			case 0:
				return gtx{b64(malleate(g.signeds[i])), "replay malleated of " + g.past[i].desc}
			case 1:
				p := g.r.Intn(len(g.past[i].raw))
				raw := append(append(append([]byte{}, g.past[i].raw[:p]...), '\n'), g.past[i].raw[p:]...)
				return gtx{raw, "replay respelled of " + g.past[i].desc}
			default:
				return gtx{g.past[i].raw, "replay of " + g.past[i].desc}
			}
		}
		kind = "config"
	}
	a := g.actor()
	msg := g.payload(kind)
	if kind == "checkin" {
		msg = g.checkin(a)
	}
	g.nonce++
	nonce := g.nonce
	if g.r.Intn(2) == 0 {
		nonce = g.nonce<<32 | uint64(g.r.Uint32())
	}
	if u := g.used[a.addr]; len(u) > 0 && g.r.Intn(5) == 0 {
		// differs from a nonce of the same signer in a single bit
		nonce = u[g.r.Intn(len(u))] ^ 1<<uint(g.r.Intn(64))
	}
	if g.used == nil {
		g.used = map[common.Address][]uint64{}
	}
	g.used[a.addr] = append(g.used[a.addr], nonce)
	env := &shmsg.MessageWithNonce{ChainId: []byte(g.chain), RandomNonce: nonce, Msg: msg}
	desc := fmt.Sprintf("%s by %x: %v", kind, a.addr[:3], msg)
	hostile := g.r.Intn(100) < g.hostile
	h := -1
	if hostile {
		h = g.r.Intn(9)
	}
	switch h {
	case 0:
		env.ChainId = [][]byte{nil, []byte("other"), []byte(g.chain + "x"), append([]byte(g.chain), 0), []byte(g.chain[:len(g.chain)-1])}[g.r.Intn(5)]
		desc += " (wrong chain)"
	case 1:
		// a nonce used before, by anybody
		if g.nonce > 1 {
			env.RandomNonce = 1 + uint64(g.r.Int63n(int64(g.nonce)-1))
		}
		desc += fmt.Sprintf(" (nonce %d)", env.RandomNonce)
	case 2:
		env.RandomNonce = []uint64{0, math.MaxUint64, 1 << 63}[g.r.Intn(3)]
		desc += fmt.Sprintf(" (nonce %d)", env.RandomNonce)
	}
	signed, err := shmsg.SignMessage(env, a.key)
	if err != nil {
		panic(err)
	}
	switch h {
	case 3: // signature altered
		signed[g.r.Intn(64)] ^= 1 << uint(g.r.Intn(8))
		desc += " (bad signature)"
	case 4: // recovery id altered
		signed[64] = byte(g.r.Intn(256))
		desc += " (bad recovery id)"
	case 5: // body altered
		if len(signed) > 65 {
			signed[65+g.r.Intn(len(signed)-65)] ^= 1 << uint(g.r.Intn(8))
		}
		desc += " (body altered)"
	case 6:
		signed = signed[:g.r.Intn(len(signed)+1)]
		desc += " (truncated)"
	case 7:
		// someone else's signature on this body
		if len(g.signeds) > 0 {
			o := g.signeds[g.r.Intn(len(g.signeds))]
			signed = append(append([]byte{}, o[:65]...), signed[65:]...)
		}
		desc += " (foreign signature)"
	}
	raw := b64(signed)
	if h == 8 {
		switch g.r.Intn(4) {
		case 0:
			raw = signed
		case 1:
			raw = []byte(base64.StdEncoding.EncodeToString(signed))
		case 2:
			raw = append(raw, '=')
		case 3:
			raw = nil
		}
		desc += " (bad encoding)"
	}
	t := gtx{raw, desc}
	if h < 3 && len(raw) > 0 {
		g.past = append(g.past, t)
		g.signeds = append(g.signeds, signed)
	}
	return t
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// sign wraps a message into a well-formed transaction.
func (g *gen) sign(a actor, msg *shmsg.Message, nonce uint64) gtx {
	env := &shmsg.MessageWithNonce{ChainId: []byte(g.chain), RandomNonce: nonce, Msg: msg}
	signed, err := shmsg.SignMessage(env, a.key)
	if err != nil {
		panic(err)
	}
	return gtx{b64(signed), fmt.Sprintf("by %x nonce %d", a.addr[:3], nonce)}
}
