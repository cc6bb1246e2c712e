package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"unicode/utf8"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

func rndUint(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64 - uint64(r.Intn(2))
	case 2:
		return uint64(1)<<63 - 1 + uint64(r.Intn(3))
	case 3:
		return uint64(r.Intn(1000))
	}
	return r.Uint64()
}

func rndAddr(r *rand.Rand) common.Address {
	var a common.Address
	if r.Intn(10) > 0 {
		r.Read(a[:])
	}
	return a
}

func rndAddrs(r *rand.Rand) []common.Address {
	var l []common.Address
	for i := r.Intn(5); i > 0; i-- {
		l = append(l, rndAddr(r))
	}
	return l
}

func rndBlob(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(4)*r.Intn(40))
	r.Read(b)
	return b
}

// randEvent makes an event and its rendering.
func randEvent(r *rand.Rand, h int64) (shutterevents.IEvent, string) {
	switch r.Intn(9) {
	case 0:
		e := shutterevents.BatchConfig{Keypers: rndAddrs(r), StartBatchIndex: rndUint(r), Threshold: rndUint(r), ConfigIndex: rndUint(r)}
		return e, fmt.Sprintf("config start=%d threshold=%d index=%d keypers=%s", e.StartBatchIndex, e.Threshold, e.ConfigIndex, addrList(e.Keypers))
	case 1:
		e := shutterevents.EonStarted{Eon: rndUint(r), BatchIndex: rndUint(r)}
		return e, fmt.Sprintf("eon-started eon=%d batch=%d", e.Eon, e.BatchIndex)
	case 2:
		key := make([]byte, 32)
		r.Read(key)
		k, err := crypto.ToECDSA(key)
		if err != nil {
			panic(vt.InfraError(err.Error()))
		}
		e := shutterevents.CheckIn{Sender: rndAddr(r), EncryptionPublicKey: ecies.ImportECDSAPublic(&k.PublicKey)}
		return e, fmt.Sprintf("check-in sender=%x key=%x", e.Sender, crypto.CompressPubkey(&k.PublicKey))
	case 3:
		e := shutterevents.DecryptionSignature{BatchIndex: rndUint(r), Sender: rndAddr(r), Signature: rndBlob(r)}
		return e, fmt.Sprintf("decryption-signature batch=%d sender=%x sig=%x", e.BatchIndex, e.Sender, e.Signature)
	case 4:
		e := shutterevents.PolyEval{Eon: rndUint(r), Sender: rndAddr(r), Receivers: rndAddrs(r)}
		for range e.Receivers {
			e.EncryptedEvals = append(e.EncryptedEvals, rndBlob(r))
		}
		return e, fmt.Sprintf("poly-eval eon=%d sender=%x receivers=%s evals=%s", e.Eon, e.Sender, addrList(e.Receivers), hexList(e.EncryptedEvals))
	case 5:
		var gs shcrypto.Gammas
		var bs [][]byte
		for i := r.Intn(5); i > 0; i-- {
			n := big.NewInt(r.Int63())
			if r.Intn(8) == 0 {
				n = new(big.Int) // the neutral element
			}
			p := new(bn256.G2).ScalarBaseMult(n)
			gs = append(gs, p)
			bs = append(bs, new(bn256.G2).ScalarBaseMult(n).Marshal())
		}
		e := shutterevents.PolyCommitment{Eon: rndUint(r), Sender: rndAddr(r), Gammas: &gs}
		return e, fmt.Sprintf("poly-commitment eon=%d sender=%x gammas=%s", e.Eon, e.Sender, hexList(bs))
	case 6:
		e := shutterevents.Accusation{Eon: rndUint(r), Sender: rndAddr(r), Accused: rndAddrs(r)}
		return e, fmt.Sprintf("accusation eon=%d sender=%x accused=%s", e.Eon, e.Sender, addrList(e.Accused))
	case 7:
		e := shutterevents.Apology{Eon: rndUint(r), Sender: rndAddr(r), Accusers: rndAddrs(r)}
		nums := ""
		for i := range e.Accusers {
			n := new(big.Int).SetBytes(rndBlob(r))
			e.PolyEval = append(e.PolyEval, n)
			if i > 0 {
				nums += ","
			}
			nums += n.String()
		}
		return e, fmt.Sprintf("apology eon=%d sender=%x accusers=%s evals=%s", e.Eon, e.Sender, addrList(e.Accusers), nums)
	}
	n := big.NewInt(r.Int63())
	p := new(bn256.G1).ScalarBaseMult(n)
	share := shcrypto.EpochSecretKeyShare(*p)
	e := shutterevents.EpochSecretKeyShare{Eon: rndUint(r), Epoch: rndUint(r), Sender: rndAddr(r), Share: &share}
	return e, fmt.Sprintf("key-share eon=%d epoch=%d sender=%x share=%x", e.Eon, e.Epoch, e.Sender, new(bn256.G1).ScalarBaseMult(n).Marshal())
}

func heightOf(e shutterevents.IEvent) int64 {
	switch x := e.(type) {
	case *shutterevents.BatchConfig:
		return x.Height
	case *shutterevents.EonStarted:
		return x.Height
	case *shutterevents.CheckIn:
		return x.Height
	case *shutterevents.DecryptionSignature:
		return x.Height
	case *shutterevents.PolyEval:
		return x.Height
	case *shutterevents.PolyCommitment:
		return x.Height
	case *shutterevents.Accusation:
		return x.Height
	case *shutterevents.Apology:
		return x.Height
	case *shutterevents.EpochSecretKeyShare:
		return x.Height
	}
	return -1
}

func cloneEvent(e abcitypes.Event) abcitypes.Event {
	b, err := e.Marshal()
	if err != nil {
		panic(err)
	}
	var c abcitypes.Event
	if err := c.Unmarshal(b); err != nil {
		panic(err)
	}
	return c
}

func checkC17(c *vt.C) {
	c.Cases("events", c.N(20000, 400000), 0, func(k *vt.K) {
		h := k.R.Int63()
		e, want := randEvent(k.R, h)
		ev := e.MakeABCIEvent()
		for _, a := range ev.Attributes {
			k.Check(utf8.Valid(a.Key) && utf8.Valid(a.Value), "utf8", "%s: attribute %q isn't text", ev.Type, a.Key)
		}
		wire := cloneEvent(ev)
		k.Tracef("%s as %v", want, ev)
		var got string
		var dec shutterevents.IEvent
		if p := vt.NoPanic(func() {
			var err error
			dec, err = shutterevents.MakeEvent(wire, h)
			if err == nil {
				got, err = canon(wire)
			}
			if err != nil {
				got = "error: " + err.Error()
			}
		}); p != "" {
			k.Failf("decode-panic", "decoding %s panics: %s", want, p)
			return
		}
		if !k.Check(got == want, "roundtrip-"+ev.Type, "event %s comes back as %s", want, got) {
			return
		}
		k.Check(heightOf(dec) == h, "height", "event of height %d comes back with height %d", h, heightOf(dec))
		k.Count("round_trips")
		k.Seen("types", ev.Type)
		k.Eval(ev.String(), true)
		if k.Idx%2003 == 0 {
			k.Sample(want)
		}
		for i := 0; i < 4; i++ {
			mutateEvent(k, cloneEvent(ev), want)
		}
	})
	c.Require("round_trips", 5000)
	c.Require("malformed_refused", 5000)
}

// mutateEvent damages an encoded event; the decoder must refuse it or, where the damage isn't
// certainly detectable, return something that survives another round trip.
func mutateEvent(k *vt.K, ev abcitypes.Event, want string) {
	r := k.R
	mustFail := false
	what := ""
	i := r.Intn(len(ev.Attributes))
	switch r.Intn(9) {
	case 0: // a missing attribute
		ev.Attributes = append(ev.Attributes[:i:i], ev.Attributes[i+1:]...)
		mustFail, what = true, fmt.Sprintf("without attribute %d", i)
	case 1:
		ev.Attributes[i].Key = append([]byte{}, append(ev.Attributes[i].Key, 'x')...)
		mustFail, what = true, "attribute renamed"
	case 2:
		ev.Type = []string{"", "shutter.", ev.Type + "x", "transfer"}[r.Intn(4)]
		mustFail, what = true, "unknown type"
	case 3: // a list of nothing
		ev.Attributes = nil
		mustFail, what = true, "no attributes"
	case 4:
		j := r.Intn(len(ev.Attributes))
		ev.Attributes[i], ev.Attributes[j] = ev.Attributes[j], ev.Attributes[i]
		mustFail, what = i != j, "attributes swapped"
	case 5: // values that are never right
		switch string(ev.Attributes[i].Key) {
		case "Eon", "BatchIndex", "Epoch", "Threshold", "StartBatchIndex", "ConfigIndex":
			ev.Attributes[i].Value = []byte([]string{"", "-1", "18446744073709551616", "0x10", "1 ", "a", "1.5", "1,2"}[r.Intn(8)])
		case "Sender":
			ev.Attributes[i].Value = []byte([]string{"", "0x", "0x1234", string(ev.Attributes[i].Value) + "00", string(ev.Attributes[i].Value) + " ", "hello"}[r.Intn(6)])
		case "Keypers", "Receivers", "Accused", "Accusers":
			ev.Attributes[i].Value = []byte([]string{",", "0x1234", "zz", "0x" + fmt.Sprintf("%x", make([]byte, 21)), "0x0000000000000000000000000000000000000001,"}[r.Intn(5)])
		case "EncryptedEvals", "PolyEvals":
			ev.Attributes[i].Value = []byte([]string{",", "0xabc", "12", "0xzz", "0x12,"}[r.Intn(5)])
		case "Gammas":
			ev.Attributes[i].Value = []byte([]string{",", "00", "zz", "0x00", fmt.Sprintf("%x", append(bytes.Repeat([]byte{0}, 127), 1))}[r.Intn(5)])
		case "Share":
			ev.Attributes[i].Value = []byte([]string{"", "0x", "0x00", "zz", fmt.Sprintf("0x%x", append(bytes.Repeat([]byte{0}, 63), 1))}[r.Intn(5)])
		case "EncryptionPublicKey":
			ev.Attributes[i].Value = []byte([]string{"", "AA", "!!", "BAAA"}[r.Intn(4)])
		case "Signature":
			ev.Attributes[i].Value = []byte([]string{"!", "A", "a=b", "ab c"}[r.Intn(4)])
		default:
			return
		}
		mustFail, what = true, fmt.Sprintf("%s=%q", ev.Attributes[i].Key, ev.Attributes[i].Value)
	case 6: // arbitrary damage
		v := append([]byte{}, ev.Attributes[i].Value...)
		for n := 1 + r.Intn(3); n > 0 && len(v) > 0; n-- {
			switch r.Intn(3) {
			case 0:
				v[r.Intn(len(v))] = byte(r.Intn(256))
			case 1:
				v = v[:r.Intn(len(v))]
			case 2:
				p := r.Intn(len(v))
				v = append(v[:p:p], append([]byte{byte(r.Intn(256))}, v[p:]...)...)
			}
		}
		ev.Attributes[i].Value = v
		what = fmt.Sprintf("%s=%q", ev.Attributes[i].Key, v)
	case 7:
		ev.Attributes[i].Value = nil
		what = fmt.Sprintf("%s=nil", ev.Attributes[i].Key)
	case 8: // more attributes than needed are fine
		ev.Attributes = append(ev.Attributes, abcitypes.EventAttribute{Key: []byte("extra"), Value: []byte("1")})
		what = "extra attribute"
	}
	var err error
	var got, again string
	if p := vt.NoPanic(func() {
		_, err = shutterevents.MakeEvent(ev, 1)
		if err == nil {
			got, err = canon(ev)
		}
		if err == nil {
			var e shutterevents.IEvent
			e, err = shutterevents.MakeEvent(ev, 1)
			if err == nil {
				again, err = canon(e.MakeABCIEvent())
			}
		}
	}); p != "" {
		k.Failf("malformed-panic", "decoding a malformed event (%s of %s) panics: %s", what, want, p)
		return
	}
	if err != nil {
		k.Count("malformed_refused")
		k.Check(what != "extra attribute", "extra-attribute", "an additional attribute makes %s undecodable: %v", want, err)
		return
	}
	if mustFail {
		k.Failf("malformed-accepted", "malformed event (%s) of %s is decoded as %s", what, want, got)
		return
	}
	k.Count("malformed_harmless")
	k.Check(got == again, "unstable", "damaged event (%s) decodes as %s, which comes back as %s", what, got, again)
}
