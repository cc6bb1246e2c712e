package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sync"

	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/verifharness/vt"
)

// eon is a key setup whose secrets the monitor knows.
type eon struct {
	n, t   int
	polys  []poly
	gammas []*shcrypto.Gammas
	secret *big.Int   // sum of constant terms
	shares []*big.Int // secret share per keyper
	sk     []*shcrypto.EonSecretKeyShare
	pks    []*shcrypto.EonPublicKeyShare
	pk     *shcrypto.EonPublicKey
}

func newEon(r *rand.Rand, n, t int) *eon {
	return newEonDealers(r, n, t, n)
}

// newEonDealers sets up n keypers with keys made of the contributions of some dealers only, the
// others are left out as if they were corrupt.
func newEonDealers(r *rand.Rand, n, t, dealers int) *eon {
	e := &eon{n: n, t: t, secret: new(big.Int)}
	for i := 0; i < dealers; i++ {
		p := randPoly(r, t-1)
		e.polys = append(e.polys, p)
		e.gammas = append(e.gammas, p.gammas())
		e.secret.Add(e.secret, p[0])
	}
	e.secret.Mod(e.secret, order)
	for i := 0; i < n; i++ {
		sum := new(big.Int)
		evals := []*big.Int{}
		for _, p := range e.polys {
			v := p.at(int64(i + 1))
			sum.Add(sum, v)
			evals = append(evals, v)
		}
		e.shares = append(e.shares, sum.Mod(sum, order))
		e.sk = append(e.sk, shcrypto.ComputeEonSecretKeyShare(evals))
		e.pks = append(e.pks, shcrypto.ComputeEonPublicKeyShare(i, e.gammas))
	}
	e.pk = shcrypto.ComputeEonPublicKey(e.gammas)
	return e
}

func (e *eon) epochKey(id []byte) *shcrypto.EpochSecretKey {
	h := (*blst.P1Affine)(shcrypto.ComputeEpochID(id))
	return (*shcrypto.EpochSecretKey)(g1mul(h, e.secret))
}

func randID(r *rand.Rand) []byte {
	switch r.Intn(4) {
	case 0:
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(r.Intn(5)))
		return b
	case 1:
		b := make([]byte, r.Intn(80))
		r.Read(b)
		return b
	}
	b := make([]byte, 8)
	r.Read(b)
	return b
}

func randMsg(r *rand.Rand, max int) []byte {
	lens := []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97}
	n := 0
	if r.Intn(2) == 0 {
		n = lens[r.Intn(len(lens))]
	} else {
		n = r.Intn(max + 1)
	}
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0: // looks like padding
		for i := range b {
			b[i] = byte(1 + r.Intn(33))
		}
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(2)) * 0xff
		}
	default:
		r.Read(b)
	}
	return b
}

func randSigma(r *rand.Rand) (s shcrypto.Block) {
	if r.Intn(10) > 0 {
		r.Read(s[:])
	}
	return s
}

func subsetsOf(n, t int) [][]int {
	res := [][]int{}
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		if len(cur) == t {
			res = append(res, append([]int{}, cur...))
			return
		}
		for i := start; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return res
}

func p1eq(a, b interface{}) bool {
	return bytes.Equal(p1bytes(a), p1bytes(b))
}

func p1bytes(a interface{}) []byte {
	switch p := a.(type) {
	case *blst.P1Affine:
		return p.Serialize()
	case *shcrypto.EpochSecretKey:
		return (*blst.P1Affine)(p).Serialize()
	case *shcrypto.EpochSecretKeyShare:
		return (*blst.P1Affine)(p).Serialize()
	}
	panic("type")
}

func checkC04(c *vt.C) {
	c.Cases("quorum", c.N(400, 12000), 0, func(k *vt.K) {
		r := k.R
		n := 1 + r.Intn(10)
		t := 1 + r.Intn(n)
		if r.Intn(12) == 0 {
			n = 11 + r.Intn(20)
			t = 1 + r.Intn(n)
		}
		id := randID(r)
		e := newEon(r, n, t)
		epochID := shcrypto.ComputeEpochID(id)
		k.Tracef("n=%d t=%d id=%x secret=%x", n, t, id, e.secret)
		k.Check((*blst.P2Affine)(e.pk).Equals(g2(e.secret)), "eon-public-key", "the eon public key is not the secret times the generator (n=%d t=%d)", n, t)
		shares := []*shcrypto.EpochSecretKeyShare{}
		for i := 0; i < n; i++ {
			k.Check((*big.Int)(e.sk[i]).Cmp(e.shares[i]) == 0, "eon-secret-share", "eon secret key share of keyper %d differs from the sum of the evaluations", i)
			k.Check((*blst.P2Affine)(e.pks[i]).Equals(g2(e.shares[i])), "eon-public-share", "eon public key share of keyper %d doesn't belong to its secret key share", i)
			s := shcrypto.ComputeEpochSecretKeyShare(e.sk[i], epochID)
			k.Check(shcrypto.VerifyEpochSecretKeyShare(s, e.pks[i], epochID), "share-rejected", "the correct share of keyper %d is rejected (n=%d t=%d id=%x)", i, n, t, id)
			shares = append(shares, s)
		}
		want := e.epochKey(id)
		msg := randMsg(r, 200)
		enc := shcrypto.Encrypt(msg, e.pk, epochID, randSigma(r))
		subs := [][]int{}
		if n <= 6 {
			subs = subsetsOf(n, t)
		} else {
			for i := 0; i < 6; i++ {
				subs = append(subs, r.Perm(n)[:t])
			}
		}
		for si, sub := range subs {
			sub := append([]int{}, sub...)
			r.Shuffle(t, func(i, j int) { sub[i], sub[j] = sub[j], sub[i] })
			ss := []*shcrypto.EpochSecretKeyShare{}
			for _, i := range sub {
				ss = append(ss, shares[i])
			}
			key, err := shcrypto.ComputeEpochSecretKey(sub, ss, uint64(t))
			if !k.Check(err == nil, "quorum-error", "quorum %v of %d/%d: %v", sub, t, n, err) {
				continue
			}
			k.Check(p1eq(key, want), "wrong-key", "quorum %v of %d/%d computes a different epoch secret key", sub, t, n)
			key2, err := shcrypto.NewLagrangeCoeffs(sub).ComputeEpochSecretKey(ss)
			k.Check(err == nil && p1eq(key2, want), "wrong-key-lagrange", "quorum %v of %d/%d computes a different epoch secret key with precomputed coefficients (%v)", sub, t, n, err)
			k.Count("quorums")
			k.Eval(fmt.Sprintf("%v/%d/%x", sub, n, id), t > 1)
			if si < 3 {
				got, err := enc.Decrypt(key)
				k.Check(err == nil && bytes.Equal(got, msg), "decrypt", "quorum %v of %d/%d: decrypting a message of %d bytes: %v", sub, t, n, len(msg), err)
				ok, err := shcrypto.VerifyEpochSecretKey(key, e.pk, id)
				k.Check(ok && err == nil, "key-rejected", "quorum %v of %d/%d: key not accepted as the epoch secret key: %v", sub, t, n, err)
				k.Count("decryptions")
			}
			// one wrong share spoils the key, and that is noticed
			if si < 2 {
				bad := append([]*shcrypto.EpochSecretKeyShare{}, ss...)
				j := r.Intn(t)
				bad[j] = shcrypto.ComputeEpochSecretKeyShare(e.sk[sub[j]], shcrypto.ComputeEpochID(append([]byte{9}, id...)))
				key, err := shcrypto.ComputeEpochSecretKey(sub, bad, uint64(t))
				if err == nil {
					ok, _ := shcrypto.VerifyEpochSecretKey(key, e.pk, id)
					_, err := enc.Decrypt(key)
					k.Check(!ok && err != nil, "spoiled-key-accepted", "a key made with a share of another epoch is accepted (n=%d t=%d)", n, t)
				}
				k.Count("spoiled_quorums")
			}
		}
		// fewer or more shares than the threshold are refused
		for _, m := range []int{t - 1, t + 1} {
			if m < 0 || m > n {
				continue
			}
			sub := r.Perm(n)[:m]
			ss := []*shcrypto.EpochSecretKeyShare{}
			for _, i := range sub {
				ss = append(ss, shares[i])
			}
			_, err := shcrypto.ComputeEpochSecretKey(sub, ss, uint64(t))
			k.Check(err != nil, "non-quorum", "%d shares are accepted with threshold %d", m, t)
			if m > 0 {
				_, err = shcrypto.ComputeEpochSecretKey(sub, ss[1:], uint64(t))
				k.Check(err != nil, "mismatched-shares", "%d indices with %d shares are accepted", m, m-1)
				_, err = shcrypto.NewLagrangeCoeffs(sub).ComputeEpochSecretKey(ss[1:])
				k.Check(err != nil, "mismatched-shares", "%d coefficients with %d shares are accepted", m, m-1)
			}
			k.Count("non_quorums")
			if m == t-1 && m > 0 {
				// below the threshold the interpolated value must not be the key
				key, err := shcrypto.NewLagrangeCoeffs(sub).ComputeEpochSecretKey(ss)
				k.Check(err != nil || !p1eq(key, want), "below-threshold", "%d shares with threshold %d yield the key", m, t)
			}
		}
		if k.Idx < 4 {
			k.Sample(fmt.Sprintf("n=%d t=%d id=%x quorums=%d message of %d bytes", n, t, id, len(subs), len(msg)))
		}
	})
	c.Require("quorums", 500)
	c.Require("spoiled_quorums", 100)
	c.Require("non_quorums", 100)
}

func checkC05(c *vt.C) {
	verify := func(k *vt.K, n, t, dealers int) {
		r := k.R
		id := randID(r)
		id2 := append(append([]byte{}, id...), byte(r.Intn(3)))
		e := newEonDealers(r, n, t, dealers)
		h := (*blst.P1Affine)(shcrypto.ComputeEpochID(id))
		h2 := (*blst.P1Affine)(shcrypto.ComputeEpochID(id2))
		epochID := (*shcrypto.EpochID)(h)
		k.Tracef("n=%d t=%d id=%x id2=%x secret=%x", n, t, id, id2, e.secret)
		if p1eq(h, h2) {
			k.Failf("epoch-id-collision", "ids %x and %x have the same epoch id point", id, id2)
		}
		i := r.Intn(n)
		j := r.Intn(n)
		type cand struct {
			name string
			p    *blst.P1Affine
		}
		one := big.NewInt(1)
		add := func(a *big.Int, d int64) *big.Int { return new(big.Int).Mod(new(big.Int).Add(a, big.NewInt(d)), order) }
		neg := func(a *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Neg(a), order) }
		cands := func(right *big.Int) []cand {
			return []cand{
				{"correct", g1mul(h, right)},
				{"other epoch", g1mul(h2, right)},
				{"plus one", g1mul(h, add(right, 1))},
				{"minus one", g1mul(h, add(right, -1))},
				{"negated", g1mul(h, neg(right))},
				{"doubled", g1mul(h, new(big.Int).Mod(new(big.Int).Mul(right, big.NewInt(2)), order))},
				{"epoch id itself", g1mul(h, one)},
				{"generator multiple", blst.P1Generator().ToAffine()},
				{"infinity", g1mul(h, new(big.Int))},
				{"random", g1mul(h, randScalar(r))},
				{"share of another keyper", g1mul(h, e.shares[j])},
				{"eon secret", g1mul(h, e.secret)},
			}
		}
		right := g1mul(h, e.shares[i])
		for _, cd := range cands(e.shares[i]) {
			want := p1eq(cd.p, right)
			got := shcrypto.VerifyEpochSecretKeyShare((*shcrypto.EpochSecretKeyShare)(cd.p), e.pks[i], epochID)
			k.Check(got == want, "share-verdict", "share %q of keyper %d: verdict %v, want %v (n=%d t=%d id=%x)", cd.name, i, got, want, n, t, id)
			k.Eval(fmt.Sprintf("s%s%x", cd.name, p1bytes(cd.p)), true)
			k.Count(fmt.Sprintf("share_%v", want))
		}
		rightKey := g1mul(h, e.secret)
		for _, cd := range cands(e.secret) {
			want := p1eq(cd.p, rightKey)
			key := (*shcrypto.EpochSecretKey)(cd.p)
			got, err := shcrypto.VerifyEpochSecretKey(key, e.pk, id)
			k.Check(err == nil && got == want, "key-verdict", "key %q: verdict %v %v, want %v (n=%d t=%d id=%x)", cd.name, got, err, want, n, t, id)
			got, err = shcrypto.VerifyEpochSecretKeyDeterministic(key, e.pk, id, randSigma(r), randMsg(r, 100))
			k.Check(err == nil && got == want, "key-verdict-deterministic", "key %q: deterministic verdict %v %v, want %v (n=%d t=%d id=%x)", cd.name, got, err, want, n, t, id)
			got, err = shcrypto.VerifyEpochSecretKey(key, e.pk, id2)
			want2 := p1eq(cd.p, g1mul(h2, e.secret))
			k.Check(err == nil && got == want2, "key-verdict", "key %q for another epoch: verdict %v %v, want %v", cd.name, got, err, want2)
			k.Eval(fmt.Sprintf("k%s%x", cd.name, p1bytes(cd.p)), true)
			k.Count(fmt.Sprintf("key_%v", want))
		}
		// evaluations
		d := r.Intn(dealers)
		g := e.gammas[d]
		rightEval := e.polys[d].at(int64(i + 1))
		for _, v := range []*big.Int{rightEval, add(rightEval, 1), add(rightEval, -1), neg(rightEval), new(big.Int), randScalar(r), e.polys[d].at(int64(j + 1)), e.polys[d].at(0), e.polys[d].at(int64(i)), e.polys[d].at(int64(i + 2)), e.polys[j%dealers].at(int64(i + 1)), e.shares[i]} {
			want := v.Cmp(rightEval) == 0
			got := shcrypto.VerifyPolyEval(i, v, g, uint64(t))
			k.Check(got == want, "eval-verdict", "evaluation %x for keyper %d: verdict %v, want %v (t=%d)", v, i, got, want, t)
			k.Count(fmt.Sprintf("eval_%v", want))
			k.Eval(fmt.Sprintf("e%x%d%x", v, i, g.Marshal()), true)
		}
		for _, tt := range []int{t - 1, t + 1, t + 5} {
			if tt >= 1 && shcrypto.VerifyPolyEval(i, rightEval, g, uint64(tt)) {
				k.Failf("eval-degree", "commitment of degree %d accepted for threshold %d", t-1, tt)
			}
		}
		// a commitment to a polynomial of too low degree padded with the neutral element still
		// commits to that polynomial
		pad := append(append(poly{}, e.polys[d]...), new(big.Int))
		k.Check(shcrypto.VerifyPolyEval(i, rightEval, pad.gammas(), uint64(t+1)), "eval-padded", "evaluation of a polynomial with a zero leading coefficient is rejected")
		for _, v := range []struct {
			v  *big.Int
			ok bool
		}{
			{new(big.Int), true},
			{new(big.Int).Sub(order, one), true},
			{order, false},
			{new(big.Int).Add(order, rightEval), false},
			{big.NewInt(-1), false},
			{new(big.Int).Lsh(one, 300), false},
			{new(big.Int).Neg(rightEval), rightEval.Sign() == 0},
			{rightEval, true},
		} {
			k.Check(shcrypto.ValidEval(v.v) == v.ok, "valid-eval", "ValidEval(%x) is %v", v.v, !v.ok)
		}
		// polynomials of the code under test
		pp, err := shcrypto.NewPolynomial([]*big.Int(e.polys[d]))
		if k.Check(err == nil, "new-polynomial", "valid coefficients rejected: %v", err) {
			k.Check(pp.EvalForKeyper(i).Cmp(rightEval) == 0, "poly-eval", "evaluation for keyper %d is %x, want %x", i, pp.EvalForKeyper(i), rightEval)
			k.Check(pp.Gammas().Equal(*g), "poly-gammas", "the commitment of a polynomial differs from its coefficients times the generator")
			k.Check(int(pp.Degree()) == t-1 && int(pp.Gammas().Degree()) == t-1, "poly-degree", "degree")
		}
		for _, badc := range []*big.Int{order, big.NewInt(-1), new(big.Int).Lsh(one, 256)} {
			cs := append([]*big.Int{}, e.polys[d]...)
			cs[r.Intn(len(cs))] = badc
			_, err := shcrypto.NewPolynomial(cs)
			k.Check(err != nil, "new-polynomial-bad", "coefficient %x accepted", badc)
		}
		if k.Idx < 4 {
			k.Sample(fmt.Sprintf("n=%d t=%d id=%x keyper=%d 12 candidate shares, 12 candidate keys, 12 evaluations", n, t, id, i))
		}
	}
	c.Cases("verify", c.N(700, 12000), 0, func(k *vt.K) {
		n := 2 + k.R.Intn(6)
		verify(k, n, 1+k.R.Intn(n), n)
	})
	// many keypers, of whom only a few deal
	c.Cases("verify-large", c.N(24, 400), 0, func(k *vt.K) {
		n := 8 + k.R.Intn(120)
		t := 1 + k.R.Intn(n)
		k.Count("large")
		verify(k, n, t, 1+k.R.Intn(2))
	})
	c.Require("large", 20)
	c.Require("share_true", 100)
	c.Require("share_false", 1000)
	c.Require("key_true", 100)
	c.Require("key_false", 1000)
	c.Require("eval_true", 100)
	c.Require("eval_false", 1000)
}

// guarded returns a copy of b with spare capacity behind it and a function that tells if anything
// was written to it.
func guarded(r *rand.Rand, b []byte) ([]byte, func() bool) {
	spare := 1 + r.Intn(100)
	back := make([]byte, len(b)+spare)
	copy(back, b)
	r.Read(back[len(b):])
	snap := append([]byte{}, back...)
	return back[:len(b)], func() bool { return bytes.Equal(back, snap) }
}

func checkC06(c *vt.C) {
	c.Cases("integrity", c.N(1200, 25000), 0, func(k *vt.K) {
		r := k.R
		secret := randScalar(r)
		if secret.Sign() == 0 {
			secret = big.NewInt(1)
		}
		pk := (*shcrypto.EonPublicKey)(g2(secret))
		id := randID(r)
		epochID := shcrypto.ComputeEpochID(id)
		key := (*shcrypto.EpochSecretKey)(g1mul((*blst.P1Affine)(epochID), secret))
		maxLen := 300
		if r.Intn(40) == 0 {
			maxLen = 40000
		}
		msg := randMsg(r, maxLen)
		in, intact := guarded(r, msg)
		sigma := randSigma(r)
		enc := shcrypto.Encrypt(in, pk, epochID, sigma)
		k.Tracef("secret=%x id=%x sigma=%x msg=%x", secret, id, sigma, msg)
		k.Check(intact(), "caller-memory", "encrypting a message of %d bytes changed memory of the caller", len(msg))
		enc2 := shcrypto.Encrypt(msg, pk, epochID, sigma)
		wire := enc.Marshal()
		k.Check(bytes.Equal(wire, enc2.Marshal()), "nondeterministic", "encryption isn't a function of its arguments")
		k.Check(len(wire) >= len(msg)+1+96+32 && len(wire) <= len(msg)+1+96+32+32, "size", "ciphertext of %d bytes for a message of %d", len(wire), len(msg))
		var parsed shcrypto.EncryptedMessage
		err := parsed.Unmarshal(wire)
		k.Check(err == nil, "own-ciphertext", "own ciphertext is rejected: %v", err)
		got, err := parsed.Decrypt(key)
		k.Check(err == nil && bytes.Equal(got, msg), "roundtrip", "message of %d bytes decrypts to %x, %v", len(msg), got, err)
		k.Check(bytes.Equal(wire, parsed.Marshal()), "decrypt-modifies", "decrypting modified the message")
		k.Eval(fmt.Sprintf("%x", wire), len(msg) > 0)
		k.Count("roundtrips")

		// no keystream reuse inside a message
		seen := map[shcrypto.Block]int{}
		pads := shcrypto.PadMessage(msg)
		if k.Check(len(pads) == len(enc.C3), "blocks", "%d padded blocks, %d ciphertext blocks", len(pads), len(enc.C3)) {
			for i := range pads {
				x := shcrypto.XORBlocks(pads[i], enc.C3[i])
				if o, dup := seen[x]; dup {
					k.Failf("keystream-reuse", "blocks %d and %d of a message of %d bytes are encrypted with the same key", o, i, len(msg))
					break
				}
				seen[x] = i
			}
			k.C.Count("blocks", int64(len(pads)))
		}
		// other sigma and other epoch: nothing shared
		s2 := sigma
		s2[r.Intn(32)] ^= byte(1 << uint(r.Intn(8)))
		e3 := shcrypto.Encrypt(msg, pk, epochID, s2)
		k.Check(!e3.C1.Equals(enc.C1), "sigma-ignored-c1", "two encryptions with different sigma share C1")
		for i, b := range e3.C3 {
			if b == enc.C3[i] {
				k.Failf("sigma-ignored", "two encryptions with different sigma share block %d", i)
				break
			}
		}
		idB := append(append([]byte{}, id...), 1)
		epochB := shcrypto.ComputeEpochID(idB)
		eB := shcrypto.Encrypt(msg, pk, epochB, sigma)
		k.Check(eB.C2 != enc.C2, "epoch-ignored", "the same message for two epochs has the same C2")
		wrongKeys := []*shcrypto.EpochSecretKey{
			(*shcrypto.EpochSecretKey)(g1mul((*blst.P1Affine)(epochB), secret)),
			(*shcrypto.EpochSecretKey)(g1mul((*blst.P1Affine)(epochID), new(big.Int).Add(secret, big.NewInt(1)))),
			(*shcrypto.EpochSecretKey)(epochID),
			new(shcrypto.EpochSecretKey),
		}
		for i, wk := range wrongKeys {
			if p1eq(wk, key) {
				continue
			}
			got, err := enc.Decrypt(wk)
			k.Check(err != nil, "wrong-key-decrypts", "a wrong key (%d) decrypts the message to %x", i, got)
			k.Check(err == nil || len(got) == 0, "plaintext-with-error", "failed decryption returns %d bytes", len(got))
			k.Count("wrong_keys")
		}
		// tampering: anything that still decrypts decrypts to the original
		for i := 0; i < 10; i++ {
			w := append([]byte{}, wire...)
			what := ""
			switch r.Intn(8) {
			case 0:
				p := r.Intn(len(w))
				w[p] ^= byte(1 << uint(r.Intn(8)))
				what = fmt.Sprintf("bit flipped in byte %d", p)
			case 1: // padding of the last block
				p := len(w) - 1 - r.Intn(32)
				w[p] ^= byte(1 + r.Intn(255))
				what = fmt.Sprintf("byte %d of the last block changed", p)
			case 2:
				if len(w) > 1+96+32+32 {
					w = w[:len(w)-32]
				}
				what = "last block dropped"
			case 3:
				w = append(w, wire[len(wire)-32:]...)
				what = "last block repeated"
			case 4:
				what = "blocks swapped"
				if n := len(enc.C3); n > 1 {
					a, b := r.Intn(n), r.Intn(n)
					o := 1 + 96 + 32
					copy(w[o+32*a:o+32*a+32], wire[o+32*b:])
					copy(w[o+32*b:o+32*b+32], wire[o+32*a:o+32*a+32])
				}
			case 5:
				copy(w[1:], g2(randScalar(r)).Compress())
				what = "other C1"
			case 6:
				copy(w[1+96:1+96+32], e3.C2[:])
				what = "other C2"
			case 7:
				w2 := e3.Marshal()
				copy(w[1:1+96+32], w2[1:])
				what = "other C1 and C2"
			}
			var m shcrypto.EncryptedMessage
			if msgp := vt.NoPanic(func() { err = m.Unmarshal(w) }); msgp != "" {
				k.Failf("tamper-panic", "%s: decoding panics: %s", what, msgp)
				continue
			}
			if err != nil {
				k.Count("tampered_undecodable")
				continue
			}
			var got []byte
			if msgp := vt.NoPanic(func() { got, err = m.Decrypt(key) }); msgp != "" {
				k.Failf("tamper-panic", "%s: decryption panics: %s", what, msgp)
				continue
			}
			if err != nil {
				k.Count("tampered_rejected")
				continue
			}
			k.Check(bytes.Equal(got, msg), "tamper", "tampered ciphertext (%s) of %x decrypts to %x", what, msg, got)
			k.Count("tampered_same_plaintext")
		}
		// hand-made blocks with arbitrary padding never panic and never yield the wrong length
		nb := r.Intn(4)
		bl := []shcrypto.Block{}
		for i := 0; i < nb; i++ {
			var b shcrypto.Block
			r.Read(b[:])
			b[31] = byte(r.Intn(36))
			bl = append(bl, b)
		}
		m, err := shcrypto.UnpadMessage(bl)
		if nb > 0 {
			pl := int(bl[nb-1][31])
			k.Check((err == nil) == (pl >= 1 && pl <= 32), "unpad-verdict", "padding length %d: %v", pl, err)
			if err == nil {
				flat := []byte{}
				for _, b := range bl {
					flat = append(flat, b[:]...)
				}
				k.Check(bytes.Equal(m, flat[:len(flat)-pl]), "unpad", "unpadding %x gives %x", flat, m)
			}
		}
		if k.Idx < 4 {
			k.Sample(fmt.Sprintf("message of %d bytes, id %x, 10 tamperings, 4 wrong keys", len(msg), id))
		}
	})
	c.Cases("sigma", c.N(50, 500), 0, func(k *vt.K) {
		n := k.R.Intn(40)
		b := make([]byte, n)
		k.R.Read(b)
		s, err := shcrypto.RandomSigma(bytes.NewReader(b))
		k.Check((err == nil) == (n >= 32), "sigma-short", "source of %d bytes: %v", n, err)
		k.Check(err != nil || bytes.Equal(s[:], b[:32]), "sigma-source", "sigma doesn't use its source")
	})
	c.Require("roundtrips", 500)
	c.Require("tampered_rejected", 500)
	c.Require("tampered_same_plaintext", 50)
	c.Require("wrong_keys", 500)
}

func checkC09(c *vt.C) {
	perms := map[int]map[string]bool{}
	keysFor := map[int]int{}
	c.Cases("shuffle", c.N(4000, 60000), 1, func(k *vt.K) {
		r := k.R
		n := r.Intn(40)
		if r.Intn(20) == 0 {
			n = r.Intn(3000)
		}
		key := (*shcrypto.EpochSecretKey)(g1mul(blst.P1Generator().ToAffine(), randScalar(r)))
		if r.Intn(3) > 0 {
			b := make([]byte, 32)
			r.Read(b)
			key = (*shcrypto.EpochSecretKey)(g1mul(blst.P1Generator().ToAffine(), new(big.Int).SetBytes(b)))
		}
		a, b := make([][]byte, n), make([][]byte, n)
		for i := range a {
			a[i] = []byte(fmt.Sprint(i))
			b[i] = make([]byte, r.Intn(3))
			r.Read(b[i])
		}
		b0 := append([][]byte{}, b...)
		sa := shcrypto.Shuffle(a, key)
		sb := shcrypto.Shuffle(b, key)
		k.Tracef("n=%d key=%x", n, p1bytes(key))
		if !k.Check(len(sa) == n && len(sb) == n, "length", "shuffling %d transactions gives %d", n, len(sa)) {
			return
		}
		perm := ""
		used := map[int]bool{}
		for i := range sa {
			var j int
			fmt.Sscan(string(sa[i]), &j)
			used[j] = true
			if n <= 40 {
				perm += fmt.Sprint(j) + " "
			}
			if !bytes.Equal(sb[i], b0[j]) {
				k.Failf("content-dependent", "position %d depends on the contents of the transactions (n=%d)", i, n)
				break
			}
		}
		k.Check(len(used) == n, "not-a-permutation", "shuffling %d transactions keeps only %d of them", n, len(used))
		for i := range a {
			if string(a[i]) != fmt.Sprint(i) || !bytes.Equal(b[i], b0[i]) {
				k.Failf("input-modified", "the given transactions are modified")
				break
			}
		}
		// the same from a key that went over the wire, at any later time, with other randomness used in between
		k2 := new(shcrypto.EpochSecretKey)
		if err := k2.Unmarshal(key.Marshal()); err == nil {
			_ = rand.Int()
			sc := shcrypto.Shuffle(append([][]byte{}, a...), k2)
			for i := range sc {
				if !bytes.Equal(sc[i], sa[i]) {
					k.Failf("nondeterministic", "the same key and transactions give different orders (n=%d)", n)
					break
				}
			}
		}
		if n >= 15 && n <= 40 {
			if perms[n] == nil {
				perms[n] = map[string]bool{}
			}
			kb := fmt.Sprintf("key%x", p1bytes(key))
			if !perms[n][kb] {
				perms[n][kb] = true
				keysFor[n]++
				k.Check(!perms[n][perm], "key-ignored", "two different keys give the same order of %d transactions", n)
				perms[n][perm] = true
				k.Count("orders_compared")
			}
		}
		k.Eval(fmt.Sprintf("%d%x", n, p1bytes(key)), n > 1)
		k.C.Count("moved", int64(n))
		if k.Idx < 4 {
			k.Sample(fmt.Sprintf("n=%d order=%.100s", n, perm))
		}
	})
	// all orders of small lists and all positions of bigger ones are equally likely
	var mu sync.Mutex
	orders := map[int]map[string]int{3: {}, 4: {}, 5: {}}
	places := map[int]map[string]int{8: {}, 23: {}}
	N := c.N(30000, 300000)
	c.Cases("spread", N, 0, func(k *vt.K) {
		b := make([]byte, 32)
		k.R.Read(b)
		key := (*shcrypto.EpochSecretKey)(g1mul(blst.P1Generator().ToAffine(), new(big.Int).SetBytes(b)))
		for _, m := range []int{3, 4, 5, 8, 23} {
			in := [][]byte{}
			for i := 0; i < m; i++ {
				in = append(in, []byte{byte(i)})
			}
			out := shcrypto.Shuffle(in, key)
			mu.Lock()
			if o, ok := orders[m]; ok {
				o[fmt.Sprint(out)]++
			} else {
				for i, x := range out {
					places[m][fmt.Sprintf("transaction %d on position %d", x[0], i)]++
				}
			}
			mu.Unlock()
		}
		k.Count("spread")
	})
	if c.OnlyIdx < 0 {
		chi2 := func(what string, counts map[string]int, cells int, total, dof, scale float64) {
			exp, x := total/float64(cells), 0.0
			most, least := "", ""
			for o, n := range counts {
				x += (float64(n) - exp) * (float64(n) - exp) / exp
				if most == "" || n > counts[most] {
					most = o
				}
				if least == "" || n < counts[least] {
					least = o
				}
			}
			x = (x + exp*float64(cells-len(counts))) * scale
			// Wilson and Hilferty's normal approximation
			z := (math.Cbrt(x/dof) - (1 - 2/(9*dof))) / math.Sqrt(2/(9*dof))
			c.Count("distributions_tested", 1)
			c.Sample(fmt.Sprintf("%s: %d of %d cells seen, z=%.2f", what, len(counts), cells, z))
			if z > 7 {
				c.Failf("biased", "%s over %d keys: %d of %d cells seen, most often %s (%d), least often %s (%d), expected %.0f, z=%.1f", what, N, len(counts), cells, most, counts[most], least, counts[least], exp, z)
			}
		}
		chi2("orders of 3", orders[3], 6, float64(N), 5, 1)
		chi2("orders of 4", orders[4], 24, float64(N), 23, 1)
		chi2("orders of 5", orders[5], 120, float64(N), 119, 1)
		chi2("places of 8", places[8], 64, float64(8*N), 49, 7./8)
		chi2("places of 23", places[23], 529, float64(23*N), 484, 22./23)
		c.Require("distributions_tested", 5)
	}
	c.Require("orders_compared", 500)
}
