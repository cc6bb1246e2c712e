package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/verifharness/vt"
)

// order of the BLS12-381 groups, written down independently of the code under test.
var order, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

func randScalar(r *rand.Rand) *big.Int {
	switch r.Intn(12) {
	case 0:
		return new(big.Int).Sub(order, big.NewInt(int64(1+r.Intn(3))))
	case 1:
		return big.NewInt(int64(1 + r.Intn(3)))
	}
	b := make([]byte, 40)
	r.Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), order)
}

func g2(s *big.Int) *blst.P2Affine {
	var buf [32]byte
	new(big.Int).Mod(s, order).FillBytes(buf[:])
	sc := new(blst.Scalar)
	sc.FromBEndian(buf[:]) // returns nil for zero, but sets it
	return blst.P2Generator().Mult(sc).ToAffine()
}

func g1mul(p *blst.P1Affine, s *big.Int) *blst.P1Affine {
	var buf [32]byte
	new(big.Int).Mod(s, order).FillBytes(buf[:])
	sc := new(blst.Scalar)
	sc.FromBEndian(buf[:]) // returns nil for zero, but sets it
	q := new(blst.P1)
	q.FromAffine(p)
	return q.Mult(sc).ToAffine()
}

// poly is the monitor's own polynomial, lowest coefficient first.
type poly []*big.Int

func randPoly(r *rand.Rand, deg int) poly {
	p := poly{}
	for i := 0; i <= deg; i++ {
		p = append(p, randScalar(r))
	}
	return p
}

func (p poly) at(x int64) *big.Int {
	res := new(big.Int)
	bx := big.NewInt(x)
	for i := len(p) - 1; i >= 0; i-- {
		res.Mul(res, bx)
		res.Add(res, p[i])
		res.Mod(res, order)
	}
	return res
}

func (p poly) gammas() *shcrypto.Gammas {
	g := shcrypto.Gammas{}
	for _, c := range p {
		g = append(g, g2(c))
	}
	return &g
}

type pair struct{ accuser, accused int }

// dkgModel is the reference bookkeeping of what one keyper must have accepted.
type dkgModel struct {
	n, t, me    int
	phase       int // as puredkg.Phase
	commits     map[int]poly
	evals       map[int]*big.Int
	accusations map[pair]bool
	apologies   map[pair]*big.Int
}

func newModel(n, t, me int) *dkgModel {
	return &dkgModel{n: n, t: t, me: me, commits: map[int]poly{}, evals: map[int]*big.Int{}, accusations: map[pair]bool{}, apologies: map[pair]*big.Int{}}
}

func (m *dkgModel) evalOK(dealer, who int, v *big.Int) bool {
	c, ok := m.commits[dealer]
	return ok && v != nil && c.at(int64(who+1)).Cmp(v) == 0
}

func (m *dkgModel) disqualified(d int) bool {
	if _, ok := m.commits[d]; !ok {
		return true
	}
	for p, v := range m.apologies {
		if p.accused == d && !m.evalOK(d, p.accuser, v) {
			return true
		}
	}
	for p := range m.accusations {
		if p.accused == d {
			if _, ok := m.apologies[p]; !ok {
				return true
			}
		}
	}
	return false
}

func (m *dkgModel) myEval(d int) *big.Int {
	if v, ok := m.apologies[pair{m.me, d}]; ok {
		return v
	}
	return m.evals[d]
}

func validEval(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(order) < 0 }

// msg is any DKG message with the index of its polynomial known to the monitor.
type dmsg struct {
	kind   string // commit eval accuse apology
	from   int
	to     int // receiver of eval, other party of accuse/apology
	eon    uint64
	poly   poly
	gammas *shcrypto.Gammas
	val    *big.Int
}

func (d dmsg) String() string {
	return fmt.Sprintf("%s from=%d to=%d eon=%d deg=%d val=%.12v", d.kind, d.from, d.to, d.eon, len(d.poly)-1, d.val)
}

// accepts is the specification of message acceptance; it also applies the message.
func (m *dkgModel) deliver(eon uint64, d dmsg) bool {
	if d.eon != eon {
		return false
	}
	switch d.kind {
	case "commit":
		if m.phase > int(puredkg.Dealing) || len(d.poly)-1 != m.t-1 {
			return false
		}
		if _, dup := m.commits[d.from]; dup {
			return false
		}
		m.commits[d.from] = d.poly
	case "eval":
		if m.phase > int(puredkg.Dealing) || d.to != m.me || !validEval(d.val) {
			return false
		}
		if _, dup := m.evals[d.from]; dup {
			return false
		}
		m.evals[d.from] = d.val
	case "accuse":
		if m.phase > int(puredkg.Accusing) || m.accusations[pair{d.from, d.to}] {
			return false
		}
		m.accusations[pair{d.from, d.to}] = true
	case "apology":
		p := pair{d.to, d.from}
		if _, dup := m.apologies[p]; dup || m.phase > int(puredkg.Apologizing) || !validEval(d.val) {
			return false
		}
		m.apologies[p] = d.val
	}
	return true
}

func apply(p *puredkg.PureDKG, d dmsg) error {
	switch d.kind {
	case "commit":
		return p.HandlePolyCommitmentMsg(puredkg.PolyCommitmentMsg{Eon: d.eon, Sender: uint64(d.from), Gammas: d.gammas})
	case "eval":
		return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: d.eon, Sender: uint64(d.from), Receiver: uint64(d.to), Eval: new(big.Int).Set(d.val)})
	case "accuse":
		return p.HandleAccusationMsg(puredkg.AccusationMsg{Eon: d.eon, Accuser: uint64(d.from), Accused: uint64(d.to)})
	default:
		return p.HandleApologyMsg(puredkg.ApologyMsg{Eon: d.eon, Accuser: uint64(d.to), Accused: uint64(d.from), Eval: new(big.Int).Set(d.val)})
	}
}

type dkgRun struct {
	k        *vt.K
	n, t     int
	eon      uint64
	honest   []int
	byz      []int
	isHonest map[int]bool
	pure     map[int]*puredkg.PureDKG
	model    map[int]*dkgModel
	polys    map[int]poly // honest polynomials (learned) and byz main polynomials
	byzStyle map[int]string
	restarts bool
	strict   bool // C03: check accept/reject of each message
	results  map[int]*puredkg.Result
	errs     map[int]error
	accs     map[int][]int
	delivered,
	rejected int
	shape string
	pending []dmsg
}

func (r *dkgRun) maybeRestart(i int) {
	if !r.restarts || r.k.R.Intn(3) != 0 {
		return
	}
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(r.pure[i]); err != nil {
		r.k.Failf("gob-encode", "keyper %d cannot be saved: %v", i, err)
		return
	}
	p := new(puredkg.PureDKG)
	if err := gob.NewDecoder(&buf).Decode(p); err != nil {
		r.k.Failf("gob-decode", "keyper %d cannot be restored: %v", i, err)
		return
	}
	r.k.Tracef("keyper %d saved and restored in phase %s", i, p.Phase)
	r.k.Count("restarts")
	r.pure[i] = p
}

// send delivers d to keyper i and compares the reaction with the specification.
func (r *dkgRun) send(i int, d dmsg) {
	want := r.model[i].deliver(r.eon, d)
	err := apply(r.pure[i], d)
	if want {
		r.delivered++
	} else {
		r.rejected++
	}
	if (err == nil) != want {
		r.k.Tracef("-> keyper %d: %s want accept=%v got %v", i, d, want, err)
		r.k.Failf("accept-"+d.kind, "keyper %d phase %d: message %s: specification says accept=%v, code returned %v", i, r.model[i].phase, d, want, err)
	}
}

// broadcast delivers the messages to every honest keyper in an order that differs per keyper but
// keeps the order of messages of one sender, as a shared log does.
func (r *dkgRun) broadcast(ms []dmsg) {
	for _, i := range r.honest {
		bySender := map[int][]dmsg{}
		var senders []int
		for _, d := range ms {
			if d.kind == "eval" && d.to != i && r.k.R.Intn(4) != 0 {
				continue // private message of someone else (sometimes misdelivered)
			}
			if d.kind == "eval" && d.from == i {
				continue
			}
			if _, ok := bySender[d.from]; !ok {
				senders = append(senders, d.from)
			}
			bySender[d.from] = append(bySender[d.from], d)
		}
		for len(senders) > 0 {
			x := r.k.R.Intn(len(senders))
			s := senders[x]
			r.maybeRestart(i)
			r.send(i, bySender[s][0])
			bySender[s] = bySender[s][1:]
			if len(bySender[s]) == 0 {
				senders = append(senders[:x], senders[x+1:]...)
			}
		}
	}
}

var byzStyles = []string{"silent", "nocommit", "wrongdegree", "badeval", "missingeval", "outofrange", "doublecommit", "doubleeval", "follow", "falseaccuse", "badapology", "noapology", "unsolicited", "late", "wrongeon", "goodapology"}

func (r *dkgRun) byzDealing(b int) []dmsg {
	style := r.byzStyle[b]
	p := randPoly(r.k.R, r.t-1)
	r.polys[b] = p
	commit := dmsg{kind: "commit", from: b, eon: r.eon, poly: p, gammas: p.gammas()}
	var out []dmsg
	has := func(s string) bool { return strings.Contains(style, s) }
	if has("silent") {
		return nil
	}
	switch {
	case has("nocommit"):
	case has("wrongdegree"):
		deg := r.t - 1
		for deg == r.t-1 {
			deg = r.k.R.Intn(r.t + 2)
		}
		q := randPoly(r.k.R, deg)
		out = append(out, dmsg{kind: "commit", from: b, eon: r.eon, poly: q, gammas: q.gammas()})
		if r.k.R.Intn(3) == 0 {
			out = append(out, commit)
		}
	default:
		if has("wrongeon") {
			c2 := commit
			c2.eon = r.eon + 1 + uint64(r.k.R.Intn(3))
			out = append(out, c2)
		}
		out = append(out, commit)
		if has("doublecommit") {
			q := randPoly(r.k.R, r.t-1)
			out = append(out, dmsg{kind: "commit", from: b, eon: r.eon, poly: q, gammas: q.gammas()})
		}
	}
	for i := 0; i < r.n; i++ {
		if i == b {
			continue
		}
		v := p.at(int64(i + 1))
		ev := dmsg{kind: "eval", from: b, to: i, eon: r.eon, val: v}
		hit := r.k.R.Intn(2) == 0
		if has("missingeval") && hit {
			continue
		}
		if has("badeval") && hit {
			ev.val = new(big.Int).Mod(new(big.Int).Add(v, big.NewInt(int64(1+r.k.R.Intn(5)))), order)
		}
		if has("outofrange") && hit {
			if r.k.R.Intn(2) == 0 {
				ev.val = new(big.Int).Add(v, order)
			} else {
				ev.val = new(big.Int).Sub(v, order)
			}
		}
		if ev.val.Sign() == 0 {
			continue
		}
		if has("wrongeon") && hit {
			e2 := ev
			e2.eon++
			out = append(out, e2)
		}
		out = append(out, ev)
		if has("doubleeval") && hit {
			e2 := ev
			e2.val = randScalar(r.k.R)
			out = append(out, e2)
		}
	}
	return out
}

func (r *dkgRun) phase(p puredkg.Phase) {
	for _, i := range r.honest {
		r.model[i].phase = int(p)
	}
}

func randomStyle(r *rand.Rand) string {
	s := byzStyles[r.Intn(len(byzStyles))]
	for r.Intn(2) == 0 {
		s += "+" + byzStyles[r.Intn(len(byzStyles))]
	}
	return s
}

// runDKG executes one complete DKG among real PureDKG instances and byzantine participants.
func runDKG(k *vt.K, restarts bool, maxByz int) *dkgRun {
	n := 1 + k.R.Intn(6)
	if k.R.Intn(25) == 0 {
		n = 7 + k.R.Intn(8)
		k.Count("large_sets")
	}
	t := 1 + k.R.Intn(n)
	nb := 0
	if n > 1 && maxByz != 0 {
		nb = k.R.Intn(n)
		if maxByz > 0 && nb > maxByz {
			nb = maxByz
		}
	}
	perm := k.R.Perm(n)
	r := &dkgRun{k: k, n: n, t: t, eon: uint64(k.R.Intn(1000)), isHonest: map[int]bool{}, pure: map[int]*puredkg.PureDKG{}, model: map[int]*dkgModel{}, polys: map[int]poly{}, byzStyle: map[int]string{}, restarts: restarts, results: map[int]*puredkg.Result{}, errs: map[int]error{}, accs: map[int][]int{}}
	r.byz = perm[:nb]
	r.honest = perm[nb:]
	sort.Ints(r.honest)
	sort.Ints(r.byz)
	for _, b := range r.byz {
		r.byzStyle[b] = randomStyle(k.R)
	}
	// in a quarter of the runs the messages between some honest pairs get lost as well
	lossy := k.R.Intn(4) == 0
	k.Tracef("n=%d t=%d eon=%d honest=%v byz=%v lossy=%v", n, t, r.eon, r.honest, r.byzStyle, lossy)
	for _, i := range r.honest {
		p := puredkg.NewPureDKG(r.eon, uint64(n), uint64(t), uint64(i))
		r.pure[i] = &p
		r.model[i] = newModel(n, t, i)
		r.isHonest[i] = true
	}
	var ms []dmsg
	r.phase(puredkg.Dealing)
	for _, i := range r.honest {
		r.maybeRestart(i)
		c, evs, err := r.pure[i].StartPhase1Dealing()
		if err != nil {
			k.Failf("start-dealing", "StartPhase1Dealing: %v", err)
			return r
		}
		p := poly{}
		for _, co := range *r.pure[i].Polynomial {
			p = append(p, new(big.Int).Set(co))
		}
		r.polys[i] = p
		ok := len(p) == t && c.Sender == uint64(i) && c.Eon == r.eon && c.Gammas != nil && len(*c.Gammas) == t
		if ok {
			for j := range p {
				ok = ok && (*c.Gammas)[j].Equals(g2(p[j]))
			}
		}
		k.Check(ok, "own-commitment", "keyper %d: commitment does not commit to a polynomial of degree threshold-1", i)
		seen := map[uint64]bool{}
		for _, e := range evs {
			k.Check(e.Sender == uint64(i) && e.Eon == r.eon && !seen[e.Receiver] && e.Receiver < uint64(n) && e.Receiver != uint64(i) && p.at(int64(e.Receiver)+1).Cmp(e.Eval) == 0,
				"own-evals", "keyper %d: bad outgoing evaluation %+v", i, e)
			seen[e.Receiver] = true
			if lossy && k.R.Intn(6) == 0 {
				k.Tracef("evaluation %d->%d lost", i, e.Receiver)
				continue
			}
			ms = append(ms, dmsg{kind: "eval", from: i, to: int(e.Receiver), eon: e.Eon, val: e.Eval})
		}
		k.Check(len(seen) == n-1, "own-evals", "keyper %d: %d outgoing evaluations for %d keypers", i, len(seen), n)
		ms = append(ms, dmsg{kind: "commit", from: i, eon: r.eon, poly: p, gammas: c.Gammas})
		r.model[i].evals[i] = p.at(int64(i + 1))
	}
	for _, b := range r.byz {
		ms = append(ms, r.byzDealing(b)...)
	}
	var late []dmsg
	hold := func(in []dmsg) []dmsg {
		var now []dmsg
		for _, d := range in {
			if !r.isHonest[d.from] && strings.Contains(r.byzStyle[d.from], "late") && k.R.Intn(3) == 0 {
				late = append(late, d)
				continue
			}
			now = append(now, d)
		}
		return now
	}
	flushLate := func() {
		l := late
		late = nil
		if len(l) > 0 {
			k.Tracef("late messages: %v", l)
			r.broadcast(l)
		}
	}
	ms = hold(ms)
	for _, d := range ms {
		k.Tracef("dealing: %s", d)
	}
	r.broadcast(ms)

	r.phase(puredkg.Accusing)
	ms = nil
	for _, i := range r.honest {
		r.maybeRestart(i)
		m := r.model[i]
		want := map[int]bool{}
		for d := 0; d < n; d++ {
			if d != i && !m.evalOK(d, i, m.evals[d]) {
				want[d] = true
			}
		}
		got := map[int]bool{}
		for _, a := range r.pure[i].StartPhase2Accusing() {
			k.Check(a.Accuser == uint64(i) && a.Eon == r.eon && !got[int(a.Accused)], "accusation-form", "keyper %d: malformed accusation %+v", i, a)
			got[int(a.Accused)] = true
			ms = append(ms, dmsg{kind: "accuse", from: i, to: int(a.Accused), eon: r.eon})
			r.accs[i] = append(r.accs[i], int(a.Accused))
		}
		k.Check(fmt.Sprint(want) == fmt.Sprint(got), "accusations", "keyper %d accuses %v, but the dealers without a valid evaluation are %v", i, got, want)
	}
	for _, b := range r.byz {
		st := r.byzStyle[b]
		if strings.Contains(st, "falseaccuse") {
			for j := 0; j < n; j++ {
				if k.R.Intn(2) == 0 {
					ms = append(ms, dmsg{kind: "accuse", from: b, to: j, eon: r.eon})
					if k.R.Intn(4) == 0 {
						ms = append(ms, dmsg{kind: "accuse", from: b, to: j, eon: r.eon})
					}
				}
			}
		}
		if strings.Contains(st, "wrongeon") {
			ms = append(ms, dmsg{kind: "accuse", from: b, to: r.honest[0], eon: r.eon + 1})
		}
	}
	flushLate()
	ms = hold(ms)
	for _, d := range ms {
		k.Tracef("accusing: %s", d)
	}
	r.broadcast(ms)

	r.phase(puredkg.Apologizing)
	ms = nil
	for _, i := range r.honest {
		r.maybeRestart(i)
		want := map[int]bool{}
		for p := range r.model[i].accusations {
			if p.accused == i {
				want[p.accuser] = true
			}
		}
		got := map[int]bool{}
		aps := r.pure[i].StartPhase3Apologizing()
		sort.Slice(aps, func(a, b int) bool { return aps[a].Accuser < aps[b].Accuser })
		for _, a := range aps {
			k.Check(a.Accused == uint64(i) && a.Eon == r.eon && !got[int(a.Accuser)] && r.polys[i].at(int64(a.Accuser)+1).Cmp(a.Eval) == 0, "apology-form", "keyper %d: malformed apology %+v", i, a)
			got[int(a.Accuser)] = true
			ms = append(ms, dmsg{kind: "apology", from: i, to: int(a.Accuser), eon: r.eon, val: a.Eval})
		}
		k.Check(fmt.Sprint(want) == fmt.Sprint(got), "apologies", "keyper %d apologizes to %v, accusers were %v", i, got, want)
	}
	for _, b := range r.byz {
		st := r.byzStyle[b]
		seen := map[int]bool{}
		for p := range r.model[r.honest[0]].accusations {
			if p.accused == b {
				seen[p.accuser] = true
			}
		}
		var accusers []int
		for a := range seen {
			accusers = append(accusers, a)
		}
		sort.Ints(accusers)
		if strings.Contains(st, "unsolicited") {
			accusers = append(accusers, k.R.Intn(n))
		}
		if strings.Contains(st, "noapology") || (strings.Contains(st, "silent") && k.R.Intn(2) == 0) {
			continue
		}
		for _, a := range accusers {
			v := r.polys[b].at(int64(a + 1))
			if strings.Contains(st, "badapology") && k.R.Intn(2) == 0 {
				v = randScalar(k.R)
			}
			if strings.Contains(st, "outofrange") && k.R.Intn(2) == 0 {
				v = new(big.Int).Add(v, order)
			}
			ms = append(ms, dmsg{kind: "apology", from: b, to: a, eon: r.eon, val: v})
			if strings.Contains(st, "double") {
				ms = append(ms, dmsg{kind: "apology", from: b, to: a, eon: r.eon, val: randScalar(k.R)})
			}
		}
	}
	flushLate()
	ms = hold(ms)
	for _, d := range ms {
		k.Tracef("apologizing: %s", d)
	}
	r.broadcast(ms)

	for _, i := range r.honest {
		r.maybeRestart(i)
		if k.R.Intn(3) == 0 {
			_, err := r.pure[i].ComputeResult()
			k.Check(err != nil, "early-result", "keyper %d: a result was computed before finalization", i)
		}
		r.pure[i].Finalize()
	}
	r.phase(puredkg.Finalized)
	flushLate()
	for _, i := range r.honest {
		r.maybeRestart(i)
		res, err := r.pure[i].ComputeResult()
		r.errs[i] = err
		if err == nil {
			rr := res
			r.results[i] = &rr
		}
	}
	var st []string
	for _, b := range r.byz {
		st = append(st, r.byzStyle[b])
	}
	sort.Strings(st)
	r.shape = fmt.Sprintf("n=%d t=%d byz=%v lossy=%v", n, t, st, lossy)
	return r
}

// expected computes the specified outcome for honest keyper i.
func (r *dkgRun) expected(i int) (qual []int, ok bool) {
	m := r.model[i]
	ok = true
	for d := 0; d < r.n; d++ {
		if m.disqualified(d) {
			continue
		}
		qual = append(qual, d)
		if !m.evalOK(d, i, m.myEval(d)) {
			ok = false
		}
	}
	if len(qual) < r.t {
		ok = false
	}
	return
}

func (r *dkgRun) checkOutcome() {
	k := r.k
	var first *puredkg.Result
	for _, i := range r.honest {
		qual, ok := r.expected(i)
		res := r.results[i]
		if (res != nil) != ok {
			k.Failf("outcome", "keyper %d: qualified dealers %v, threshold %d: specification says success=%v, code returned error %v", i, qual, r.t, ok, r.errs[i])
			continue
		}
		if res == nil {
			continue
		}
		sk := new(big.Int)
		pk0 := new(big.Int)
		for _, d := range qual {
			sk.Add(sk, r.model[i].commits[d].at(int64(i+1)))
			pk0.Add(pk0, r.model[i].commits[d][0])
		}
		sk.Mod(sk, order)
		pk0.Mod(pk0, order)
		k.Check((*big.Int)(res.SecretKeyShare).Cmp(sk) == 0, "secret-share", "keyper %d: secret share is not the sum of the qualified dealers' %v evaluations", i, qual)
		k.Check((*blst.P2Affine)(res.PublicKey).Equals(g2(pk0)), "public-key", "keyper %d: public key does not match the qualified dealers %v", i, qual)
		k.Check(len(res.PublicKeyShares) == r.n, "pk-shares", "keyper %d: %d public key shares", i, len(res.PublicKeyShares))
		for j := 0; j < r.n && j < len(res.PublicKeyShares); j++ {
			s := new(big.Int)
			for _, d := range qual {
				s.Add(s, r.model[i].commits[d].at(int64(j+1)))
			}
			k.Check((*blst.P2Affine)(res.PublicKeyShares[j]).Equals(g2(s)), "pk-shares", "keyper %d: public key share of %d does not belong to that keyper's secret share", i, j)
		}
		k.Check(res.Eon == r.eon && res.NumKeypers == uint64(r.n) && res.Threshold == uint64(r.t) && res.Keyper == uint64(i), "result-meta", "keyper %d: result metadata %d %d %d %d", i, res.Eon, res.NumKeypers, res.Threshold, res.Keyper)
		if first == nil {
			first = res
			continue
		}
		k.Check(first.PublicKey.Equal(res.PublicKey), "agreement", "honest keypers disagree on the eon public key")
		for j := range res.PublicKeyShares {
			k.Check(first.PublicKeyShares[j].Equal(res.PublicKeyShares[j]), "agreement", "honest keypers disagree on public key share %d", j)
		}
	}
}

// checkJointKey verifies that the honest results work together: any threshold of them yields the
// same epoch key, and that key decrypts.
func (r *dkgRun) checkJointKey() {
	k := r.k
	var ok []int
	for _, i := range r.honest {
		if r.results[i] != nil {
			ok = append(ok, i)
		}
	}
	if len(ok) < r.t {
		return
	}
	idBytes := make([]byte, 1+k.R.Intn(12))
	k.R.Read(idBytes)
	id := shcrypto.ComputeEpochID(idBytes)
	var ref *shcrypto.EpochSecretKey
	for round := 0; round < 2; round++ {
		k.R.Shuffle(len(ok), func(a, b int) { ok[a], ok[b] = ok[b], ok[a] })
		var shares []*shcrypto.EpochSecretKeyShare
		sel := append([]int{}, ok[:r.t]...)
		for _, i := range sel {
			s := shcrypto.ComputeEpochSecretKeyShare(r.results[i].SecretKeyShare, id)
			for _, o := range ok {
				k.Check(shcrypto.VerifyEpochSecretKeyShare(s, r.results[o].PublicKeyShares[i], id), "share-verify", "epoch share of honest keyper %d does not verify for keyper %d", i, o)
			}
			shares = append(shares, s)
		}
		key, err := shcrypto.ComputeEpochSecretKey(sel, shares, uint64(r.t))
		if err != nil {
			k.Failf("combine", "combining shares of %v: %v", sel, err)
			return
		}
		if ref != nil {
			k.Check(ref.Equal(key), "combine-differs", "different quorums of honest keypers obtain different epoch keys")
		}
		ref = key
	}
	m := make([]byte, k.R.Intn(80))
	k.R.Read(m)
	var sigma shcrypto.Block
	k.R.Read(sigma[:])
	dec, err := shcrypto.Encrypt(m, r.results[ok[0]].PublicKey, id, sigma).Decrypt(ref)
	k.Check(err == nil && bytes.Equal(dec, m), "joint-decrypt", "message encrypted to the agreed key cannot be decrypted with the jointly computed key: %v", err)
	k.Count("joint_keys")
}

func checkC01(c *vt.C) {
	c.Cases("dkg", c.N(500, 6000), 0, func(k *vt.K) {
		r := runDKG(k, false, -1)
		r.checkOutcome()
		r.checkJointKey()
		finishDKG(r)
	})
	c.Require("results", 300)
	c.Require("joint_keys", 100)
}

func finishDKG(r *dkgRun) {
	k := r.k
	r.k.C.Count("messages_accepted", int64(r.delivered))
	r.k.C.Count("messages_rejected", int64(r.rejected))
	r.k.C.Count("results", int64(len(r.results)))
	r.k.C.Count("failed_dkgs", int64(len(r.errs)-len(r.results)))
	k.Seen("shapes", r.shape)
	k.Eval(strings.Join(k.Trace(), ";"), r.n > 1)
	if r.n > 2 && len(r.byz) > 0 && k.Idx < 40 {
		k.Sample(map[string]interface{}{"case": fmt.Sprintf("%s:%d", k.Name, k.Idx), "shape": r.shape, "accepted": r.delivered, "rejected": r.rejected, "results": len(r.results)})
	}
}

// C02: accountability.
func checkC02(c *vt.C) {
	c.Cases("dkg", c.N(450, 5000), 0, func(k *vt.K) {
		r := runDKG(k, false, -1)
		r.checkOutcome()
		for _, i := range r.honest {
			m := r.model[i]
			for _, h := range r.honest {
				// every honest dealer's commitment and apologies were delivered
				k.Check(!m.disqualified(h), "model-honest", "harness: honest dealer %d disqualified", h)
			}
			for _, b := range r.byz {
				if m.disqualified(b) {
					k.Count("disqualified")
				} else {
					k.Count("tolerated")
				}
			}
			if res := r.results[i]; res != nil {
				// honest dealers contribute: removing one of them must change the key
				sum := new(big.Int)
				for _, h := range r.honest {
					sum.Add(sum, r.polys[h][0])
				}
				for _, b := range r.byz {
					if !m.disqualified(b) {
						sum.Add(sum, m.commits[b][0])
					}
				}
				k.Check((*blst.P2Affine)(res.PublicKey).Equals(g2(sum)), "contribution", "keyper %d: the key is not made of exactly the honest and the undisputed dealers", i)
			}
		}
		finishDKG(r)
	})
	// no byzantine participants, lossless: nobody is accused and everybody succeeds
	c.Cases("fair", c.N(60, 600), 0, func(k *vt.K) {
		r := runDKG(k, false, 0)
		lossy := strings.Contains(r.shape, "lossy=true")
		for _, i := range r.honest {
			if !lossy {
				k.Check(len(r.accs[i]) == 0, "needless-accusation", "keyper %d accused %v although everybody behaved", i, r.accs[i])
			}
			k.Check(r.results[i] != nil, "fair-failed", "keyper %d failed although everybody behaved: %v", i, r.errs[i])
		}
		r.checkOutcome()
		finishDKG(r)
	})
	c.Require("disqualified", 100)
	c.Require("tolerated", 50)
}

// C03: message acceptance and transparency of save/restore.
func checkC03(c *vt.C) {
	c.Cases("restart", c.N(450, 5000), 0, func(k *vt.K) {
		r := runDKG(k, true, -1)
		r.checkOutcome()
		finishDKG(r)
	})
	c.Cases("hostile", c.N(250, 3000), 0, func(k *vt.K) {
		// arbitrary messages thrown at one instance in arbitrary phases
		n := 2 + k.R.Intn(4)
		t := 1 + k.R.Intn(n)
		me := k.R.Intn(n)
		eon := uint64(k.R.Intn(50))
		p := puredkg.NewPureDKG(eon, uint64(n), uint64(t), uint64(me))
		r := &dkgRun{k: k, n: n, t: t, eon: eon, pure: map[int]*puredkg.PureDKG{me: &p}, model: map[int]*dkgModel{me: newModel(n, t, me)}, restarts: true}
		k.Tracef("n=%d t=%d me=%d eon=%d", n, t, me, eon)
		pool := map[int]poly{}
		steps := 20 + k.R.Intn(30)
		adv := map[int]bool{}
		for len(adv) < 4 {
			adv[k.R.Intn(steps)] = true
		}
		for s := 0; s < steps; s++ {
			r.maybeRestart(me)
			m := r.model[me]
			if adv[s] {
				switch puredkg.Phase(m.phase) {
				case puredkg.Off:
					if _, err := 0, error(nil); err == nil {
						_, had := m.evals[me]
						_ = had
						delete(m.evals, me)
						_, _, err := r.pure[me].StartPhase1Dealing()
						k.Check(err == nil, "start-dealing", "%v", err)
						q := poly{}
						for _, co := range *r.pure[me].Polynomial {
							q = append(q, new(big.Int).Set(co))
						}
						m.evals[me] = q.at(int64(me + 1))
						pool[me] = q
					}
				case puredkg.Dealing:
					r.pure[me].StartPhase2Accusing()
				case puredkg.Accusing:
					r.pure[me].StartPhase3Apologizing()
				case puredkg.Apologizing:
					r.pure[me].Finalize()
				}
				m.phase++
				k.Tracef("phase -> %d", m.phase)
				continue
			}
			from := k.R.Intn(n)
			if pool[from] == nil {
				pool[from] = randPoly(k.R, t-1)
			}
			e := eon
			if k.R.Intn(6) == 0 {
				e += uint64(1 + k.R.Intn(2))
			}
			q := pool[from]
			if k.R.Intn(5) == 0 {
				q = randPoly(k.R, k.R.Intn(t+2))
			}
			var d dmsg
			switch k.R.Intn(4) {
			case 0:
				d = dmsg{kind: "commit", from: from, eon: e, poly: q, gammas: q.gammas()}
			case 1:
				if from == me && m.phase == 0 {
					continue
				}
				to := me
				if k.R.Intn(5) == 0 {
					to = k.R.Intn(n)
				}
				d = dmsg{kind: "eval", from: from, to: to, eon: e, val: q.at(int64(to + 1))}
				switch k.R.Intn(8) {
				case 0:
					d.val = new(big.Int).Set(order)
				case 1:
					d.val = big.NewInt(-1)
				}
				if d.val.Sign() == 0 {
					continue
				}
			case 2:
				d = dmsg{kind: "accuse", from: from, to: k.R.Intn(n), eon: e}
			case 3:
				to := k.R.Intn(n)
				d = dmsg{kind: "apology", from: from, to: to, eon: e, val: q.at(int64(to + 1))}
				if k.R.Intn(8) == 0 {
					d.val = new(big.Int).Add(order, big.NewInt(int64(k.R.Intn(3))))
				}
			}
			k.Tracef("%s", d)
			r.send(me, d)
			if k.Failed() {
				break
			}
		}
		k.C.Count("messages_accepted", int64(r.delivered))
		k.C.Count("messages_rejected", int64(r.rejected))
		k.Eval(strings.Join(k.Trace(), ";"), true)
	})
	c.Require("restarts", 1000)
	c.Require("messages_rejected", 500)
}
