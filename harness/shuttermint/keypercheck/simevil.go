package main

import (
	"crypto/rand"
	"math/big"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

func gammasOf(bs [][]byte) (*shcrypto.Gammas, bool) {
	g := shcrypto.Gammas{}
	for _, b := range bs {
		p := new(bn256.G2)
		if rest, err := p.Unmarshal(b); err != nil || len(rest) != 0 {
			return nil, false
		}
		g = append(g, p)
	}
	return &g, true
}

var curveOrder = crypto.S256().Params().N

// highS gives the other valid spelling of a signature.
func highS(sig []byte) []byte {
	c := append([]byte{}, sig...)
	s := new(big.Int).SetBytes(c[32:64])
	s.Sub(curveOrder, s)
	copy(c[32:64], common.LeftPadBytes(s.Bytes(), 32))
	c[64] ^= 1
	return c
}

// evilMessages alters a byzantine keyper's message.
func (s *sim) evilMessages(kp *simKeyper, m *shmsg.Message) []*shmsg.Message {
	r := s.r
	if s.quiet {
		return nil
	}
	has := func(kind string) bool { return kp.kinds[kind] && r.Intn(4) != 0 }
	if has("silent") {
		s.k.Count("byzantine: message dropped")
		return nil
	}
	switch p := m.Payload.(type) {
	case *shmsg.Message_PolyEval:
		if !has("eval") {
			break
		}
		s.k.Count("byzantine: bad evaluations")
		rec, enc := [][]byte{}, [][]byte{}
		for i, a := range p.PolyEval.Receivers {
			switch r.Intn(4) {
			case 0: // left out
			case 1:
				rec, enc = append(rec, a), append(enc, p.PolyEval.EncryptedEvals[i])
			case 2: // a wrong value
				to := s.kp(common.BytesToAddress(a))
				v := new(big.Int).Rand(r, bn256.Order)
				if r.Intn(4) == 0 {
					v.Add(v, bn256.Order)
				}
				c, err := ecies.Encrypt(rand.Reader, &to.cfg.EncryptionKey.PublicKey, v.Bytes(), nil, nil)
				must(err)
				rec, enc = append(rec, a), append(enc, c)
			default: // not an encryption
				rec, enc = append(rec, a), append(enc, []byte{1, 2, 3})
			}
		}
		if len(rec) == 0 {
			return nil
		}
		return []*shmsg.Message{{Payload: &shmsg.Message_PolyEval{PolyEval: &shmsg.PolyEval{Eon: p.PolyEval.Eon, Receivers: rec, EncryptedEvals: enc}}}}
	case *shmsg.Message_PolyCommitment:
		if !has("commitment") {
			break
		}
		s.k.Count("byzantine: bad commitment")
		switch r.Intn(3) {
		case 0:
			return nil
		case 1:
			g := append([][]byte{}, p.PolyCommitment.Gammas...)
			if r.Intn(2) == 0 && len(g) > 1 {
				g = g[:len(g)-1]
			} else {
				g = append(g, new(bn256.G2).ScalarBaseMult(big.NewInt(r.Int63())).Marshal())
			}
			return []*shmsg.Message{{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: p.PolyCommitment.Eon, Gammas: g}}}}
		default:
			var g [][]byte
			for range p.PolyCommitment.Gammas {
				g = append(g, new(bn256.G2).ScalarBaseMult(big.NewInt(r.Int63())).Marshal())
			}
			return []*shmsg.Message{{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: p.PolyCommitment.Eon, Gammas: g}}}}
		}
	case *shmsg.Message_Apology:
		if !has("apology") {
			break
		}
		s.k.Count("byzantine: bad apology")
		if r.Intn(2) == 0 {
			return nil
		}
		a := &shmsg.Apology{Eon: p.Apology.Eon, Accusers: p.Apology.Accusers}
		for range a.Accusers {
			a.PolyEvals = append(a.PolyEvals, new(big.Int).Rand(r, bn256.Order).Bytes())
		}
		return []*shmsg.Message{{Payload: &shmsg.Message_Apology{Apology: a}}}
	case *shmsg.Message_EpochSecretKeyShare:
		if !has("share") {
			break
		}
		s.k.Count("byzantine: bad share")
		if r.Intn(3) == 0 {
			return nil
		}
		x := &shmsg.EpochSecretKeyShare{Eon: p.EpochSecretKeyShare.Eon, Epoch: p.EpochSecretKeyShare.Epoch,
			Share: new(bn256.G1).ScalarBaseMult(big.NewInt(r.Int63())).Marshal()}
		return []*shmsg.Message{{Payload: &shmsg.Message_EpochSecretKeyShare{EpochSecretKeyShare: x}}}
	case *shmsg.Message_DecryptionSignature:
		if !has("sig") {
			break
		}
		s.k.Count("byzantine: bad decryption signature")
		sig := append([]byte{}, p.DecryptionSignature.Signature...)
		switch r.Intn(6) {
		case 0, 1:
			sig = highS(sig)
		case 2:
			sig[64] += 27
		case 3:
			sig = sig[:r.Intn(65)]
		case 4:
			sig[r.Intn(64)] ^= 1
		default:
			var err error
			sig, err = crypto.Sign(crypto.Keccak256([]byte("something else")), kp.key)
			must(err)
		}
		return []*shmsg.Message{shmsg.NewDecryptionSignature(p.DecryptionSignature.BatchIndex, sig)}
	}
	return []*shmsg.Message{m}
}

// evilTXs alters a byzantine keyper's transaction.
func (s *sim) evilTXs(kp *simKeyper, a fx.MainChainTX) []fx.MainChainTX {
	if s.quiet {
		return nil
	}
	switch x := a.(type) {
	case *fx.ExecuteCipherBatch:
		if kp.kinds["silent"] {
			return nil
		}
		if kp.kinds["execute"] {
			return nil // done by evilExtras
		}
	case *fx.Appeal:
		return nil
	case *fx.EonKeyBroadcast:
		if kp.kinds["broadcast"] {
			s.k.Count("byzantine: wrong eon key broadcast")
			c := *x
			c.EonPublicKey = (*shcrypto.EonPublicKey)(new(bn256.G2).ScalarBaseMult(big.NewInt(s.r.Int63())))
			return []fx.MainChainTX{&c}
		}
	}
	return []fx.MainChainTX{a}
}

// evilExtras does what a byzantine keyper does on its own account.
func (s *sim) evilExtras(kp *simKeyper) {
	r := s.r
	send := func(m *shmsg.Message) { kp.outSh = append(kp.outSh, m) }
	if kp.kinds["accuse"] && r.Intn(3) == 0 && len(s.eons) > 0 {
		e := s.eons[len(s.eons)-1]
		if d := s.tm.height + 1 - e.Height; d >= int64(s.o.phase) && d < 2*int64(s.o.phase) {
			var as []common.Address
			for _, c := range s.confs {
				if c.ev.StartBatchIndex > e.BatchIndex {
					continue
				}
				as = nil
				for _, a := range c.ev.Keypers {
					if a != kp.addr && r.Intn(3) != 0 {
						as = append(as, a)
					}
				}
			}
			if len(as) > 0 {
				s.k.Count("byzantine: false accusation in the key generation")
				send(shmsg.NewAccusation(e.Eon, as))
			}
		}
	}
	if kp.kinds["early"] && r.Intn(4) == 0 && len(kp.st.EKGs) > 0 {
		ekg := kp.st.EKGs[len(kp.st.EKGs)-1]
		if b, ok := s.batchAt(s.w.head()); ok {
			s.k.Count("byzantine: early share")
			epoch := b + uint64(r.Intn(3))
			send(shmsg.NewEpochSecretKeyShare(ekg.Eon, epoch, ekg.EpochKG.ComputeEpochSecretKeyShare(epoch)))
		}
	}
	if kp.kinds["vote"] && r.Intn(12) == 0 {
		if b, ok := s.batchAt(s.w.head()); ok {
			s.k.Count("byzantine: vote for another start of an eon")
			send(shmsg.NewEonStartVote(b + uint64(r.Intn(3))))
		}
	}
	if kp.kinds["execute"] && r.Intn(2) == 0 {
		hs, err := s.w.exe.NumExecutionHalfSteps(nil)
		must(err)
		b := hs / 2
		ci, err := s.w.cfg.ConfigIndexForBatchIndex(nil, b)
		must(err)
		bc, err := s.w.cfg.GetConfigByIndex(nil, ci)
		must(err)
		i, ok := bc.KeyperIndex(kp.addr)
		if bc.BatchSpan > 0 && ok && hs%2 == 0 && s.w.head()+1 >= bc.BatchEndBlock(b) && s.w.head()+1 < bc.BatchEndBlock(b)+bc.ExecutionTimeout {
			hash, err := s.w.bat.BatchHashes(nil, b, 0)
			must(err)
			if hash != [32]byte{} {
				s.k.Count("byzantine: wrong execution")
				txs := [][]byte{[]byte("not what the users sent")}
				h := s.w.tx(kp.key, func(a *bind.TransactOpts) (*types.Transaction, error) {
					return s.w.exe.ExecuteCipherBatch(a, b, hash, txs, i)
				})
				kp.flight = append(kp.flight, h)
				s.trace("%s executes batch %d wrongly", kp.name, b)
			}
		}
	}
	if kp.kinds["blame"] && r.Intn(3) == 0 {
		hs, err := s.w.exe.NumExecutionHalfSteps(nil)
		must(err)
		if hs > 0 {
			h := uint64(r.Int63n(int64(hs))) &^ 1
			if hs > 6 && r.Intn(2) == 0 {
				h = (hs - 1) &^ 1
			}
			ci, err := s.w.cfg.ConfigIndexForBatchIndex(nil, h/2)
			must(err)
			bc, err := s.w.cfg.GetConfigByIndex(nil, ci)
			must(err)
			if i, ok := bc.KeyperIndex(kp.addr); ok {
				s.k.Count("byzantine: accusation of an executor")
				s.w.tx(kp.key, func(a *bind.TransactOpts) (*types.Transaction, error) { return s.w.slash.Accuse(a, h, i) })
			}
		}
	}
}

var _ = contract.TransactionTypeCipher
