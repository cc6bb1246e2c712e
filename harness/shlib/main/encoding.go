package main

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto"
	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/shcrypto/shbls"
	"github.com/shutter-network/shutter/shlib/verifharness/vt"
)

// codec is one serialized type with the monitor's own idea of which bytes are valid.
type codec struct {
	name  string
	make  func(r *rand.Rand) interface{}
	fresh func() interface{}
	valid func(b []byte) bool
	text  bool
	gob   bool
}

func validG1(b []byte) bool {
	p := new(blst.P1Affine)
	return len(b) == 48 && p.Uncompress(b) != nil && p.InG1()
}

func validG2(b []byte) bool {
	p := new(blst.P2Affine)
	return len(b) == 96 && p.Uncompress(b) != nil && p.InG2()
}

func randG1(r *rand.Rand) *blst.P1Affine {
	if r.Intn(20) == 0 {
		return new(blst.P1Affine)
	}
	return g1mul(blst.P1Generator().ToAffine(), randScalar(r))
}

func randG2(r *rand.Rand) *blst.P2Affine {
	if r.Intn(20) == 0 {
		return new(blst.P2Affine)
	}
	return g2(randScalar(r))
}

var codecs = []codec{
	{"EonPublicKey", func(r *rand.Rand) interface{} { return (*shcrypto.EonPublicKey)(randG2(r)) },
		func() interface{} { return new(shcrypto.EonPublicKey) }, validG2, true, true},
	{"EonPublicKeyShare", func(r *rand.Rand) interface{} { return (*shcrypto.EonPublicKeyShare)(randG2(r)) },
		func() interface{} { return new(shcrypto.EonPublicKeyShare) }, validG2, false, true},
	{"EpochID", func(r *rand.Rand) interface{} {
		if r.Intn(2) == 0 {
			return shcrypto.ComputeEpochID(randID(r))
		}
		return (*shcrypto.EpochID)(randG1(r))
	}, func() interface{} { return new(shcrypto.EpochID) }, validG1, false, true},
	{"EpochSecretKeyShare", func(r *rand.Rand) interface{} { return (*shcrypto.EpochSecretKeyShare)(randG1(r)) },
		func() interface{} { return new(shcrypto.EpochSecretKeyShare) }, validG1, false, true},
	{"EpochSecretKey", func(r *rand.Rand) interface{} { return (*shcrypto.EpochSecretKey)(randG1(r)) },
		func() interface{} { return new(shcrypto.EpochSecretKey) }, validG1, true, true},
	{"Gammas", func(r *rand.Rand) interface{} {
		g := shcrypto.Gammas{}
		for i := r.Intn(5); i > 0; i-- {
			g = append(g, randG2(r))
		}
		return &g
	}, func() interface{} { return new(shcrypto.Gammas) }, func(b []byte) bool {
		if len(b)%96 != 0 {
			return false
		}
		for i := 0; i < len(b); i += 96 {
			if !validG2(b[i : i+96]) {
				return false
			}
		}
		return true
	}, true, true},
	{"EncryptedMessage", func(r *rand.Rand) interface{} {
		m := &shcrypto.EncryptedMessage{C1: randG2(r)}
		r.Read(m.C2[:])
		for i := r.Intn(5); i > 0; i-- {
			var b shcrypto.Block
			r.Read(b[:])
			m.C3 = append(m.C3, b)
		}
		return m
	}, func() interface{} { return new(shcrypto.EncryptedMessage) }, func(b []byte) bool {
		return len(b) >= 129 && (len(b)-129)%32 == 0 && b[0] == 3 && validG2(b[1:97])
	}, true, false},
	{"EonSecretKeyShare", func(r *rand.Rand) interface{} { return (*shcrypto.EonSecretKeyShare)(randScalar(r)) },
		func() interface{} { return new(shcrypto.EonSecretKeyShare) }, func(b []byte) bool {
			return new(big.Int).SetBytes(b).Cmp(order) < 0
		}, false, true},
}

type (
	marshaler     interface{ Marshal() []byte }
	unmarshaler   interface{ Unmarshal([]byte) error }
	textMarshaler interface {
		MarshalText() ([]byte, error)
	}
	textUnmarshaler interface{ UnmarshalText([]byte) error }
	gobEncoder      interface{ GobEncode() ([]byte, error) }
	gobDecoder      interface{ GobDecode([]byte) error }
)

// offSubgroup returns an encoding of a point that is on the curve but not in the right subgroup.
func offSubgroup(r *rand.Rand, n int) []byte {
	for {
		b := make([]byte, n)
		r.Read(b)
		b[0] = b[0]&0x1f&0x19 | 0x80 | byte(r.Intn(2))<<5
		if n == 48 {
			p := new(blst.P1Affine)
			if p.Uncompress(b) != nil && !p.InG1() {
				return b
			}
		} else {
			p := new(blst.P2Affine)
			if p.Uncompress(b) != nil && !p.InG2() {
				return b
			}
		}
	}
}

func mutate(r *rand.Rand, b []byte, ptOff, ptLen int) (string, []byte) {
	w := append([]byte{}, b...)
	switch r.Intn(10) {
	case 0:
		return "empty", nil
	case 1:
		if len(w) > 0 {
			return "truncated", w[:r.Intn(len(w))]
		}
	case 2:
		x := make([]byte, 1+r.Intn(100))
		r.Read(x)
		return "extended", append(w, x...)
	case 3:
		if len(w) > 0 {
			w[r.Intn(len(w))] ^= byte(1 << uint(r.Intn(8)))
			return "bit flipped", w
		}
	case 4:
		r.Read(w)
		return "random bytes", w
	case 5:
		for i := range w {
			w[i] = 0
		}
		return "zeros", w
	case 6:
		for i := range w {
			w[i] = 0xff
		}
		return "ones", w
	case 7:
		if ptLen > 0 && len(w) >= ptOff+ptLen {
			copy(w[ptOff:], offSubgroup(r, ptLen))
			return "off subgroup", w
		}
	case 8:
		if ptLen > 0 && len(w) >= ptOff+ptLen {
			for i := 0; i < ptLen; i++ {
				w[ptOff+i] = 0
			}
			w[ptOff] = 0xc0
			if r.Intn(2) == 0 {
				w[ptOff+r.Intn(ptLen)] |= byte(1 << uint(r.Intn(8)))
			}
			return "infinity", w
		}
	case 9:
		if len(w) > 32 {
			return "one block less", w[:len(w)-32]
		}
	}
	return "unchanged", w
}

func checkC07(c *vt.C) {
	c.Cases("codec", c.N(20000, 300000), 0, func(k *vt.K) {
		r := k.R
		cd := codecs[r.Intn(len(codecs))]
		v := cd.make(r)
		b := v.(marshaler).Marshal()
		k.Tracef("%s %x", cd.name, b)
		k.Check(cd.valid(b), "own-encoding", "%s: marshalled as %x, which is not a valid encoding", cd.name, b)
		k.Eval(cd.name+string(b), true)
		same := func(how string, x interface{}, err error) {
			k.Check(err == nil && bytes.Equal(x.(marshaler).Marshal(), b), "roundtrip-"+how, "%s %x doesn't survive a %s round trip: %v", cd.name, b, how, err)
			k.Count("roundtrip_" + how)
		}
		target := func() interface{} {
			if r.Intn(3) == 0 { // an object that was used before
				x := cd.fresh()
				_ = x.(unmarshaler).Unmarshal(cd.make(r).(marshaler).Marshal())
				return x
			}
			return cd.fresh()
		}
		x := target()
		same("bytes", x, x.(unmarshaler).Unmarshal(b))
		if cd.text {
			txt, err := v.(textMarshaler).MarshalText()
			k.Check(err == nil && string(txt) == "0x"+hex.EncodeToString(b), "text", "%s: text %q %v for %x", cd.name, txt, err, b)
			x := target()
			same("text", x, x.(textUnmarshaler).UnmarshalText(txt))
		}
		if cd.gob {
			d, err := v.(gobEncoder).GobEncode()
			k.Check(err == nil, "gob-encode", "%s: %v", cd.name, err)
			x := target()
			same("gobdecode", x, x.(gobDecoder).GobDecode(d))
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(v); !k.Check(err == nil, "gob-stream", "%s: %v", cd.name, err) {
				return
			}
			y := cd.fresh()
			same("gob", y, gob.NewDecoder(&buf).Decode(y))
		}
		// malformed input
		for i := 0; i < 4; i++ {
			off, pl := 0, len(b)
			switch cd.name {
			case "EncryptedMessage":
				off, pl = 1, 96
			case "Gammas":
				off, pl = 0, 0
				if len(b) >= 96 {
					off, pl = 96*r.Intn(len(b)/96), 96
				}
			case "EonSecretKeyShare":
				off, pl = 0, 0
			}
			what, w := mutate(r, b, off, pl)
			want := cd.valid(w)
			try := func(how string, dec func(x interface{}) error) {
				var err error
				x := target()
				before := append([]byte{}, w...)
				if p := vt.NoPanic(func() { err = dec(x) }); p != "" {
					k.Failf("panic-"+how, "%s: decoding %x (%s) as %s panics: %s", cd.name, w, what, how, p)
					return
				}
				k.Check((err == nil) == want, "verdict-"+how, "%s: decoding %x (%s) as %s: %v, but the bytes are valid: %v", cd.name, w, what, how, err, want)
				k.Check(bytes.Equal(before, w), "input-modified", "%s: decoding modifies its input", cd.name)
				if err == nil && want {
					m := x.(marshaler).Marshal()
					if cd.name == "EonSecretKeyShare" {
						k.Check(new(big.Int).SetBytes(m).Cmp(new(big.Int).SetBytes(w)) == 0, "value", "%s: %x decodes to %x", cd.name, w, m)
					} else {
						k.Check(bytes.Equal(m, w), "value", "%s: %x decodes to %x", cd.name, w, m)
					}
				}
				k.Count(fmt.Sprintf("malformed_%s_%v", how, want))
			}
			k.Seen("mutations", cd.name+"/"+what)
			try("bytes", func(x interface{}) error { return x.(unmarshaler).Unmarshal(w) })
			if cd.text {
				try("text", func(x interface{}) error {
					return x.(textUnmarshaler).UnmarshalText([]byte("0x" + hex.EncodeToString(w)))
				})
			}
			if cd.gob && cd.name != "EonSecretKeyShare" {
				try("gobdecode", func(x interface{}) error { return x.(gobDecoder).GobDecode(w) })
			}
			if cd.text {
				// broken hex is an error
				good := "0x" + hex.EncodeToString(b)
				bad := good
				switch r.Intn(4) {
				case 0:
					bad = good[2:]
				case 1:
					bad = good + "0"
				case 2:
					bad = good + "zz"
				case 3:
					bad = strings.Replace(good, "0x", "1x", 1)
				}
				var err error
				x := target()
				if p := vt.NoPanic(func() { err = x.(textUnmarshaler).UnmarshalText([]byte(bad)) }); p != "" {
					k.Failf("panic-hex", "%s: decoding %q panics: %s", cd.name, bad, p)
				}
				k.Check(err != nil, "broken-hex", "%s: broken hex %q is accepted", cd.name, bad)
			}
		}
		if k.Idx < 5 {
			k.Sample(fmt.Sprintf("%s %.120x", cd.name, b))
		}
	})
	c.Cases("block", c.N(2000, 20000), 0, func(k *vt.K) {
		r := k.R
		var b, b2 shcrypto.Block
		r.Read(b[:])
		txt, err := b.MarshalText()
		k.Check(err == nil && b2.UnmarshalText(txt) == nil && b == b2, "block-roundtrip", "block %x", b)
		w := make([]byte, r.Intn(70))
		r.Read(w)
		err = b2.UnmarshalText([]byte("0x" + hex.EncodeToString(w)))
		k.Check((err == nil) == (len(w) == 32), "block-length", "block of %d bytes: %v", len(w), err)
		k.Count("blocks")
		// version detection
		m := make([]byte, 1+r.Intn(200))
		r.Read(m)
		if p := vt.NoPanic(func() { shcrypto.IdentifyVersion(m) }); p != "" {
			k.Failf("panic-version", "%x: %s", m, p)
		}
	})
	c.Require("roundtrip_bytes", 5000)
	c.Require("roundtrip_gob", 3000)
	c.Require("malformed_bytes_false", 5000)
}

// bnOrder is the order of the bn256 groups, written down independently.
var bnOrder, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func checkC08(c *vt.C) {
	sk := func(r *rand.Rand) *big.Int {
		switch r.Intn(8) {
		case 0:
			return big.NewInt(int64(1 + r.Intn(3)))
		case 1:
			return new(big.Int).Sub(bnOrder, big.NewInt(int64(1+r.Intn(3))))
		}
		b := make([]byte, 40)
		r.Read(b)
		x := new(big.Int).Mod(new(big.Int).SetBytes(b), bnOrder)
		if x.Sign() == 0 {
			x.SetInt64(1)
		}
		return x
	}
	c.Cases("bls", c.N(800, 12000), 0, func(k *vt.K) {
		r := k.R
		n := 1 + r.Intn(6)
		msg := randMsg(r, 80)
		msg2 := append(append([]byte{}, msg...), byte(r.Intn(256)))
		sks := []*shbls.SecretKey{}
		pks := []*shbls.PublicKey{}
		sigs := []*shbls.Signature{}
		sum := new(big.Int)
		for i := 0; i < n; i++ {
			s := sk(r)
			if r.Intn(3) == 0 {
				buf := make([]byte, 4000)
				r.Read(buf)
				key, pub, err := shbls.RandomKeyPair(bytes.NewReader(buf))
				if !k.Check(err == nil, "keygen", "%v", err) {
					return
				}
				k.Check(shbls.SecretToPublicKey(key).Equal(pub), "keypair", "a generated key pair doesn't match")
				s = new(big.Int).Set((*big.Int)(key))
			}
			key := (*shbls.SecretKey)(new(big.Int).Set(s))
			sum.Add(sum, s)
			sks = append(sks, key)
			pks = append(pks, shbls.SecretToPublicKey(key))
			sigs = append(sigs, shbls.Sign(msg, key))
		}
		sum.Mod(sum, bnOrder)
		if sum.Sign() == 0 { // signs everything with the neutral element
			return
		}
		k.Tracef("n=%d msg=%x", n, msg)
		verify := func(s *shbls.Signature, p *shbls.PublicKey, m []byte) bool { return shbls.Verify(s, p, m) }
		for i := 0; i < n; i++ {
			k.Check(verify(sigs[i], pks[i], msg), "own-signature", "signature %d of %x doesn't verify", i, msg)
			k.Check(!verify(sigs[i], pks[i], msg2), "other-message", "a signature of %x verifies for %x", msg, msg2)
			j := r.Intn(n)
			want := pks[j].Equal(pks[i])
			k.Check(verify(sigs[i], pks[j], msg) == want, "other-key", "signature of signer %d with the key of %d: %v", i, j, !want)
			k.Eval(fmt.Sprintf("%x%x", msg, sigs[i].Marshal()), true)
			k.Count("signatures")
		}
		// near misses
		for _, d := range []int64{-1, 1} {
			bad := new(bn256.G2).Add((*bn256.G2)(sigs[0]), new(bn256.G2).ScalarBaseMult(new(big.Int).Mod(big.NewInt(d), bnOrder)))
			k.Check(!verify((*shbls.Signature)(bad), pks[0], msg), "perturbed", "a perturbed signature verifies")
		}
		neg := new(bn256.G2).Neg((*bn256.G2)(sigs[0]))
		k.Check(!verify((*shbls.Signature)(neg), pks[0], msg), "negated", "the negated signature verifies")
		inf := new(bn256.G2).ScalarBaseMult(new(big.Int))
		k.Check(!verify((*shbls.Signature)(inf), pks[0], msg), "infinity", "the neutral element verifies as a signature")
		// aggregation
		before := [][]byte{}
		for i := range sigs {
			before = append(before, append(sigs[i].Marshal(), pks[i].Marshal()...))
		}
		perm := r.Perm(n)
		ps, pp := []*shbls.Signature{}, []*shbls.PublicKey{}
		for _, i := range perm {
			ps, pp = append(ps, sigs[i]), append(pp, pks[i])
		}
		agg, aggPk := shbls.AggregateSignatures(sigs), shbls.AggregatePublicKeys(pks)
		k.Check(shbls.AggregateSignatures(ps).Equal(agg) && shbls.AggregatePublicKeys(pp).Equal(aggPk), "aggregate-order", "aggregation depends on the order")
		k.Check(aggPk.Equal(shbls.SecretToPublicKey((*shbls.SecretKey)(sum))), "aggregate-key", "the aggregated key of %d signers doesn't belong to the sum of their secrets", n)
		k.Check(agg.Equal(shbls.Sign(msg, (*shbls.SecretKey)(sum))), "aggregate-sig", "the aggregated signature of %d signers isn't the signature of the sum of their secrets", n)
		k.Check(verify(agg, aggPk, msg), "aggregate", "aggregated signature of %d signers doesn't verify", n)
		k.Check(!verify(agg, aggPk, msg2), "aggregate-message", "aggregated signature verifies another message")
		// an aggregate of aggregates
		if n > 1 {
			m := 1 + r.Intn(n-1)
			two := shbls.AggregateSignatures([]*shbls.Signature{shbls.AggregateSignatures(sigs[:m]), shbls.AggregateSignatures(sigs[m:])})
			k.Check(two.Equal(agg), "aggregate-assoc", "aggregating aggregates differs")
			k.Check(!verify(shbls.AggregateSignatures(sigs[1:]), aggPk, msg), "aggregate-missing", "an aggregate without one signer verifies for all")
			k.Check(!verify(agg, shbls.AggregatePublicKeys(pks[1:]), msg), "aggregate-extra", "an aggregate verifies without one of the keys")
			bad := append([]*shbls.Signature{}, sigs...)
			bad[r.Intn(n)] = shbls.Sign(msg2, sks[0])
			k.Check(!verify(shbls.AggregateSignatures(bad), aggPk, msg), "aggregate-bad-member", "an aggregate with a bad member verifies")
			k.Count("aggregates")
		}
		for i := range sigs {
			k.Check(bytes.Equal(before[i], append(sigs[i].Marshal(), pks[i].Marshal()...)), "inputs-modified", "aggregation or verification modified its inputs")
		}
		// encodings
		var s2 shbls.Signature
		var p2 shbls.PublicKey
		var k2 shbls.SecretKey
		k.Check(s2.Unmarshal(sigs[0].Marshal()) == nil && s2.Equal(sigs[0]), "sig-roundtrip", "signature doesn't survive a round trip")
		k.Check(p2.Unmarshal(pks[0].Marshal()) == nil && p2.Equal(pks[0]), "pk-roundtrip", "public key doesn't survive a round trip")
		k.Check(k2.Unmarshal(sks[0].Marshal()) == nil && k2.Equal(sks[0]), "sk-roundtrip", "secret key doesn't survive a round trip")
		for i := 0; i < 6; i++ {
			var w []byte
			var err error
			var again []byte
			what := ""
			var wantLen int
			switch i % 3 {
			case 0:
				what, w = mutate(r, sigs[0].Marshal(), 0, 0)
				var x shbls.Signature
				if p := vt.NoPanic(func() {
					if err = x.Unmarshal(w); err == nil {
						again = x.Marshal()
						_ = verify(&x, pks[0], msg)
					}
				}); p != "" {
					k.Failf("panic", "signature from %x (%s): %s", w, what, p)
					continue
				}
				wantLen = 128
				if err == nil && !bytes.Equal(w, sigs[0].Marshal()) {
					k.Check(!verify(&x, pks[0], msg), "malleable", "a different encoding %x verifies", w)
				}
			case 1:
				what, w = mutate(r, pks[0].Marshal(), 0, 0)
				var x shbls.PublicKey
				if p := vt.NoPanic(func() {
					if err = x.Unmarshal(w); err == nil {
						again = x.Marshal()
						if !bytes.Equal(w, pks[0].Marshal()) && verify(sigs[0], &x, msg) {
							k.Failf("key-malleable", "another public key %x verifies the signature", w)
						}
					}
				}); p != "" {
					k.Failf("panic", "public key from %x (%s): %s", w, what, p)
					continue
				}
				wantLen = 64
			case 2:
				what, w = mutate(r, sks[0].Marshal(), 0, 0)
				var x shbls.SecretKey
				if p := vt.NoPanic(func() {
					if err = x.Unmarshal(w); err == nil {
						again = x.Marshal()
					}
				}); p != "" {
					k.Failf("panic", "secret key from %x (%s): %s", w, what, p)
					continue
				}
				wantLen = 32
				want := len(w) == 32 && new(big.Int).SetBytes(w).Cmp(bnOrder) < 0
				k.Check((err == nil) == want, "sk-verdict", "secret key from %x (%s): %v", w, what, err)
			}
			k.Check(err != nil || len(w) == wantLen, "length", "%d bytes accepted instead of %d", len(w), wantLen)
			k.Check(err != nil || bytes.Equal(again, w), "value", "%x (%s) decodes to %x", w, what, again)
			k.Count(fmt.Sprintf("decoded_%v", err == nil))
		}
		// One signature must not let anybody sign another message: the message's point must not be a
		// known multiple of the generator.
		h1 := new(big.Int).Mod(crypto.Keccak256Hash(msg).Big(), bnOrder)
		h2 := new(big.Int).Mod(crypto.Keccak256Hash(msg2).Big(), bnOrder)
		f := new(big.Int).Mul(new(big.Int).ModInverse(h1, bnOrder), h2)
		forged := new(bn256.G2).ScalarMult((*bn256.G2)(sigs[0]), f.Mod(f, bnOrder))
		if verify((*shbls.Signature)(forged), pks[0], msg2) {
			k.Failf("forged-by-hash-ratio", "a signature of %x turned into one of %x without the secret key", msg, msg2)
		}
		k.Count("forgeries_tried")
		if k.Idx < 4 {
			k.Sample(fmt.Sprintf("%d signers, message %x", n, msg))
		}
	})
	c.Require("aggregates", 200)
	c.Require("decoded_false", 500)
}
