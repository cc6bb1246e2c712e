package main

import (
	"bufio"
	"encoding/gob"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// C25: the list of pending actions on disk.

func rbytes(r *rand.Rand, max int) []byte {
	b := make([]byte, r.Intn(max+1))
	r.Read(b)
	return b
}

func ruint(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return uint64(r.Intn(100))
	}
	return r.Uint64()
}

func r32(r *rand.Rand) (h [32]byte) {
	if r.Intn(3) > 0 {
		r.Read(h[:])
	}
	return
}

func rtxs(r *rand.Rand) [][]byte {
	var t [][]byte
	for n := r.Intn(5); n > 0; n-- {
		t = append(t, rbytes(r, []int{0, 1, 40, 2000}[r.Intn(4)]))
	}
	return t
}

func randMessage(r *rand.Rand) *shmsg.Message {
	var as []common.Address
	for n := r.Intn(4); n > 0; n-- {
		as = append(as, common.BytesToAddress(rbytes(r, 20)))
	}
	switch r.Intn(8) {
	case 0:
		return shmsg.NewBatchConfig(ruint(r), as, ruint(r), common.BytesToAddress(rbytes(r, 20)), ruint(r), r.Intn(2) == 0, r.Intn(2) == 0)
	case 1:
		return shmsg.NewAccusation(ruint(r), as)
	case 2:
		return shmsg.NewEonStartVote(ruint(r))
	case 3:
		return shmsg.NewDecryptionSignature(ruint(r), rbytes(r, 65))
	case 4:
		return shmsg.NewPolyEval(ruint(r), as, rtxs(r))
	case 5:
		return shmsg.NewBatchConfigStarted(ruint(r))
	case 6:
		var ev []*big.Int
		for range as {
			ev = append(ev, big.NewInt(r.Int63()))
		}
		return shmsg.NewApology(ruint(r), as, ev)
	default:
		return shmsg.NewEpochSecretKeyShare(ruint(r), ruint(r), (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(big.NewInt(1+r.Int63()))))
	}
}

var _ = puredkg.PureDKG{}

func randAction(r *rand.Rand) fx.IAction {
	switch r.Intn(8) {
	case 0, 1:
		return &fx.SendShuttermintMessage{Description: string(rbytes(r, 12)), Msg: randMessage(r)}
	case 2:
		return &fx.ExecuteCipherBatch{BatchIndex: ruint(r), CipherBatchHash: r32(r), Transactions: rtxs(r), KeyperIndex: ruint(r), TransactionGasLimit: ruint(r)}
	case 3:
		return &fx.ExecutePlainBatch{BatchIndex: ruint(r), Transactions: rtxs(r), TransactionGasLimit: ruint(r)}
	case 4:
		return &fx.SkipCipherBatch{BatchIndex: ruint(r)}
	case 5:
		return &fx.Accuse{HalfStep: ruint(r), KeyperIndex: ruint(r)}
	case 6:
		var idx []uint64
		var sigs [][]byte
		for n := r.Intn(4); n > 0; n-- {
			idx = append(idx, ruint(r))
			sigs = append(sigs, rbytes(r, 65))
		}
		return &fx.Appeal{Authorization: contract.Authorization{HalfStep: ruint(r), BatchHash: r32(r), SignerIndices: idx, Signatures: sigs}}
	default:
		return &fx.EonKeyBroadcast{KeyperIndex: ruint(r), StartBatchIndex: ruint(r), EonPublicKey: (*shcrypto.EonPublicKey)(new(bn256.G2).ScalarBaseMult(big.NewInt(1 + r.Int63())))}
	}
}

// canonAction is the content of an action.
func canonAction(a fx.IAction) string {
	switch x := a.(type) {
	case nil:
		return "nil"
	case *fx.SendShuttermintMessage:
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(x.Msg)
		must(err)
		return fmt.Sprintf("message %x %x", x.Description, b)
	case *fx.ExecuteCipherBatch:
		return fmt.Sprintf("cipher %d %x %x %d %d %d", x.BatchIndex, x.CipherBatchHash, x.Transactions, len(x.Transactions), x.KeyperIndex, x.TransactionGasLimit)
	case *fx.ExecutePlainBatch:
		return fmt.Sprintf("plain %d %x %d %d", x.BatchIndex, x.Transactions, len(x.Transactions), x.TransactionGasLimit)
	case *fx.SkipCipherBatch:
		return fmt.Sprintf("skip %d", x.BatchIndex)
	case *fx.Accuse:
		return fmt.Sprintf("accuse %d %d", x.HalfStep, x.KeyperIndex)
	case *fx.Appeal:
		a := x.Authorization
		return fmt.Sprintf("appeal %d %x %v %x", a.HalfStep, a.BatchHash, append([]uint64{}, a.SignerIndices...), a.Signatures)
	case *fx.EonKeyBroadcast:
		if x.EonPublicKey == nil {
			return fmt.Sprintf("broadcast %d %d nil", x.KeyperIndex, x.StartBatchIndex)
		}
		return fmt.Sprintf("broadcast %d %d %x", x.KeyperIndex, x.StartBatchIndex, x.EonPublicKey.Marshal())
	default:
		return fmt.Sprintf("%T %+v", a, a)
	}
}

// pendingModel is what the list of pending actions has to be.
type pendingModel struct {
	acts   map[fx.ActionID]string
	hashes map[fx.ActionID]common.Hash
	next   fx.ActionID
}

func newPendingModel() *pendingModel {
	return &pendingModel{acts: map[fx.ActionID]string{}, hashes: map[fx.ActionID]common.Hash{}}
}

func (m *pendingModel) ids() []fx.ActionID {
	var r []fx.ActionID
	for i := range m.acts {
		r = append(r, i)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (m *pendingModel) String() string {
	s := fmt.Sprintf("next=%d", m.next)
	for _, i := range m.ids() {
		s += fmt.Sprintf("; %d: %s %s", i, m.acts[i], m.hashes[i].Hex())
	}
	return s
}

// describePending gives the same description of the real thing, using only what callers use.
func describePending(p *fx.PendingActions) string {
	s := fmt.Sprintf("next=%d", p.CurrentID)
	for _, i := range p.SortedIDs() {
		s += fmt.Sprintf("; %d: %s %s", i, canonAction(p.GetAction(i)), p.GetMainChainTXHash(i).Hex())
	}
	return s
}

// pendingOp is one operation: add (again) a list of actions, set a hash or remove an action.
type pendingOp struct {
	Kind    string
	ID      fx.ActionID
	Actions []fx.IAction
	Hash    common.Hash
}

func (m *pendingModel) randOp(r *rand.Rand, last *pendingOp) pendingOp {
	ids := m.ids()
	switch x := r.Intn(10); {
	case x < 3 && len(ids) > 0:
		h := common.Hash(r32(r))
		return pendingOp{Kind: "hash", ID: ids[r.Intn(len(ids))], Hash: h}
	case x < 6 && len(ids) > 0:
		return pendingOp{Kind: "remove", ID: ids[r.Intn(len(ids))]}
	case x < 8 && last != nil && last.Kind != "":
		return *last // the same list once more, as after a restart
	}
	o := pendingOp{Kind: "add", ID: m.next}
	for n := 1 + r.Intn(5); n > 0; n-- {
		o.Actions = append(o.Actions, randAction(r))
	}
	if last != nil && last.Kind == "add" && r.Intn(4) == 0 {
		// a list that overlaps with what was added already
		o = pendingOp{Kind: "add", ID: last.ID, Actions: append(append([]fx.IAction{}, last.Actions...), o.Actions...)}
		if o.ID+fx.ActionID(len(last.Actions)) != m.next {
			o.Actions = o.Actions[:len(last.Actions)]
		}
	}
	return o
}

// apply changes the model and gives the range of ids that have to be scheduled.
func (m *pendingModel) apply(o pendingOp) (fx.ActionID, fx.ActionID) {
	switch o.Kind {
	case "hash":
		m.hashes[o.ID] = o.Hash
	case "remove":
		delete(m.acts, o.ID)
		delete(m.hashes, o.ID)
	case "add":
		start := m.next
		for i, a := range o.Actions {
			if id := o.ID + fx.ActionID(i); id >= m.next {
				m.acts[id] = canonAction(a)
				m.next = id + 1
			}
		}
		return start, m.next
	}
	return 0, 0
}

func applyPending(p *fx.PendingActions, o pendingOp) (fx.ActionID, fx.ActionID) {
	switch o.Kind {
	case "hash":
		p.SetMainChainTXHash(o.ID, o.Hash)
	case "remove":
		p.RemoveAction(o.ID)
	case "add":
		return p.AddActions(o.ID, o.Actions)
	}
	return 0, 0
}

func pendingModelCase(k *vt.K) {
	dir := filepath.Join(k.C.Scratch, fmt.Sprintf("c25-%d", k.Idx))
	must(os.MkdirAll(dir, 0o755))
	defer func() { _ = os.RemoveAll(dir) }()
	path := filepath.Join(dir, "actions.gob")
	p := fx.NewPendingActions(path)
	if err := p.Load(); !k.Check(err == nil, "load-nothing", "loading when nothing was saved yet fails: %v", err) {
		return
	}
	m := newPendingModel()
	var last *pendingOp
	restarts := 0
	key := ""
	for step := 0; step < 40; step++ {
		o := m.randOp(k.R, last)
		if o.Kind == "add" {
			c := o
			last = &c
		}
		k.Tracef("%s %d with %d actions %s", o.Kind, o.ID, len(o.Actions), o.Hash.Hex())
		key += fmt.Sprintf("%s%d/%d", o.Kind, o.ID, len(o.Actions))
		s0, e0 := m.apply(o)
		s1, e1 := applyPending(p, o)
		if o.Kind == "add" && !k.Check(s0 == s1 && e0 == e1 || s0 == e0 && s1 == e1, "range", "adding %d actions at %d says %d to %d are new, expected %d to %d", len(o.Actions), o.ID, s1, e1, s0, e0) {
			return
		}
		k.Count("operations")
		if k.R.Intn(3) == 0 {
			if k.R.Intn(2) == 0 { // what an interrupted save may leave
				must(os.WriteFile(path+".tmp", rbytes(k.R, 300), 0o644))
				k.Count("remains of an interrupted save")
			}
			p = fx.NewPendingActions(path)
			if err := p.Load(); !k.Check(err == nil, "load", "cannot load the pending actions: %v", err) {
				return
			}
			k.Count("restarts")
			restarts++
			key += "r"
		}
		got, want := describePending(p), m.String()
		k.Count("lists compared")
		if !k.Check(got == want, "content", "after %s (restarts: %d) the pending actions are\n%s\ninstead of\n%s", o.Kind, restarts, got, want) {
			return
		}
	}
	k.Eval(key, restarts > 0)
	if k.Idx < 3 {
		k.Sample(key)
	}
}

// pendingParallelCase changes a list from several goroutines, as the workers do.
func pendingParallelCase(k *vt.K) {
	path := filepath.Join(k.C.Scratch, fmt.Sprintf("c25p-%d.gob", k.Idx))
	defer func() { _ = os.Remove(path); _ = os.Remove(path + ".tmp") }()
	p := fx.NewPendingActions(path)
	const per, workers = 4, 6
	var wg sync.WaitGroup
	var mux sync.Mutex
	m := newPendingModel()
	ch := make(chan fx.ActionID, 1000)
	seeds := make([]int64, workers)
	for i := range seeds {
		seeds[i] = k.R.Int63()
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for id := range ch {
				a := p.GetAction(id)
				mux.Lock()
				same := canonAction(a) == m.acts[id]
				mux.Unlock()
				if !same {
					k.Failf("parallel-get", "action %d has changed to %s", id, canonAction(a))
				}
				h := common.Hash(r32(r))
				if r.Intn(3) > 0 {
					p.SetMainChainTXHash(id, h)
					mux.Lock()
					m.hashes[id] = h
					mux.Unlock()
				}
				if r.Intn(2) == 0 {
					p.RemoveAction(id)
					mux.Lock()
					delete(m.acts, id)
					delete(m.hashes, id)
					mux.Unlock()
				}
				_ = p.ShortInfo()
				_ = p.SortedIDs()
			}
		}(rand.New(rand.NewSource(seeds[w])))
	}
	for i := 0; i < 12; i++ {
		o := pendingOp{Kind: "add", ID: fx.ActionID(i * per)}
		for j := 0; j < per; j++ {
			o.Actions = append(o.Actions, randAction(k.R))
		}
		mux.Lock()
		m.apply(o)
		mux.Unlock()
		s, e := applyPending(p, o)
		for id := s; id < e; id++ {
			ch <- id
		}
	}
	close(ch)
	wg.Wait()
	k.Count("parallel histories")
	for _, q := range []*fx.PendingActions{p, fx.NewPendingActions(path)} {
		if q != p {
			if err := q.Load(); !k.Check(err == nil, "load", "cannot load after parallel changes: %v", err) {
				return
			}
		}
		got := describePending(q)
		if !k.Check(got == m.String(), "parallel", "after parallel changes (loaded: %v) the pending actions are\n%s\ninstead of\n%s", q != p, got, m) {
			return
		}
	}
	k.Eval(fmt.Sprint("parallel", k.Idx), true)
}

// pendingFailCase: a save that cannot be written must not lose what was saved before, and must not
// go unnoticed.
func pendingFailCase(k *vt.K) {
	dir := filepath.Join(k.C.Scratch, fmt.Sprintf("c25f-%d", k.Idx))
	must(os.MkdirAll(dir, 0o755))
	defer func() { _ = os.RemoveAll(dir) }()
	path := filepath.Join(dir, "actions.gob")
	p := fx.NewPendingActions(path)
	m := newPendingModel()
	for i := 0; i < 5; i++ {
		o := m.randOp(k.R, nil)
		m.apply(o)
		applyPending(p, o)
	}
	must(os.MkdirAll(path+".tmp/x", 0o755)) // nothing can be written there
	o := m.randOp(k.R, nil)
	fp, err := os.ReadFile(path)
	must(err)
	noticed := vt.NoPanic(func() { applyPending(p, o) }) != ""
	k.Count("failing saves")
	q := fx.NewPendingActions(path)
	if err := q.Load(); !k.Check(err == nil, "load", "cannot load after a failed save: %v", err) {
		return
	}
	got := describePending(q)
	before := m.String()
	m.apply(o)
	after := m.String()
	if noticed {
		k.Check(got == before || got == after, "failed-save", "after a failed save the file has\n%s\ninstead of\n%s", got, before)
	} else {
		k.Check(got == after, "silent", "%s returned although it could not be saved (%d bytes before)", o.Kind, len(fp))
	}
	k.Eval(fmt.Sprint("fail", k.Idx), true)
}

type pendingHistory struct{ Ops []pendingOp }

func makePendingHistory(r *rand.Rand, n int) (*pendingHistory, []string) {
	m := newPendingModel()
	h := &pendingHistory{}
	states := []string{m.String()}
	var last *pendingOp
	for i := 0; i < n; i++ {
		o := m.randOp(r, last)
		if o.Kind == "add" {
			c := o
			last = &c
		}
		m.apply(o)
		h.Ops = append(h.Ops, o)
		states = append(states, m.String())
	}
	return h, states
}

// pendingChild applies a recorded history from an operation on, reporting each. It's meant to be killed.
func pendingChild(args []string) {
	h := &pendingHistory{}
	f, err := os.Open(args[0])
	if err == nil {
		err = gob.NewDecoder(f).Decode(h)
	}
	from, err2 := strconv.Atoi(args[2])
	if err != nil || err2 != nil {
		fmt.Println("child:", err, err2)
		os.Exit(9)
	}
	p := fx.NewPendingActions(args[1])
	if err := p.Load(); err != nil {
		fmt.Println("load:", err)
		os.Exit(8)
	}
	fmt.Println("start")
	for i := from; i < len(h.Ops); i++ {
		applyPending(p, h.Ops[i])
		fmt.Println("ack", i+1)
	}
	fmt.Println("done")
}

type pendingEnv struct {
	dir, ops, path string
	states         []string
	next           int // operations known to be applied
}

func newPendingEnv(k *vt.K, n int) *pendingEnv {
	e := &pendingEnv{dir: filepath.Join(k.C.Scratch, fmt.Sprintf("c25-%s-%d", k.Name, k.Idx))}
	must(os.MkdirAll(e.dir, 0o755))
	e.ops, e.path = filepath.Join(e.dir, "ops"), filepath.Join(e.dir, "actions.gob")
	h, states := makePendingHistory(k.R, n)
	e.states = states
	f, err := os.Create(e.ops)
	must(err)
	must(gob.NewEncoder(f).Encode(h))
	must(f.Close())
	return e
}

// run applies the remaining operations in a child, until it's killed, and judges what is on disk.
func (e *pendingEnv) run(k *vt.K, strace []string, killAfter int, delay time.Duration) (ok, done bool) {
	self, err := os.Executable()
	must(err)
	args := []string{self, "pending-child", e.ops, e.path, fmt.Sprint(e.next)}
	if strace != nil {
		args = append(append([]string{"strace", "-f", "-qq"}, strace...), args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	timer := time.AfterFunc(60*time.Second, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	defer timer.Stop()
	acked := e.next
	n := 0
	sc := bufio.NewScanner(out)
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "ack "):
			acked, _ = strconv.Atoi(l[4:])
			n++
		case l == "done":
			done = true
		case strings.HasPrefix(l, "load:"):
			k.Failf("load", "after a crash: %s", l)
		case strings.HasPrefix(l, "child:"):
			panic(vt.InfraError(l))
		}
		if killAfter >= 0 && n >= killAfter {
			time.Sleep(delay)
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			killAfter = -1
		}
	}
	_ = cmd.Wait()
	if k.Failed() {
		return false, done
	}
	p := fx.NewPendingActions(e.path)
	if err := p.Load(); !k.Check(err == nil, "load", "the pending actions cannot be loaded after a crash: %v", err) {
		return false, done
	}
	got := describePending(p)
	// The pipe may hold more acknowledgements than an interrupted process had the time to write, but never
	// fewer: the state on disk is the acknowledged one or a later one.
	for i := acked; i < len(e.states); i++ {
		if e.states[i] == got && (done || i <= acked+1) {
			k.Seen("operations on disk beyond the acknowledged ones", fmt.Sprint(i-acked))
			e.next = i
			k.Tracef("killed after %d acknowledged operations, %d on disk", acked, i)
			return true, done
		}
	}
	k.Failf("lost", "after a crash when %d operations had returned the disk has\n%s\ninstead of\n%s", acked, got, e.states[acked])
	return false, done
}

func pendingKillCase(k *vt.K) {
	e := newPendingEnv(k, 150)
	defer func() { _ = os.RemoveAll(e.dir) }()
	key := ""
	for round := 0; round < 12; round++ {
		ok, done := e.run(k, nil, k.R.Intn(20), time.Duration(k.R.Intn(1500))*time.Microsecond)
		if !ok {
			return
		}
		if done {
			break
		}
		k.Count("kills")
		key += fmt.Sprint(e.next, " ")
	}
	ok, done := e.run(k, nil, -1, 0)
	if ok {
		k.Check(done && e.next == len(e.states)-1, "died", "the process died while it changed the pending actions, after %d", e.next)
	}
	k.Eval("kill "+key, true)
}

func pendingCrashpointCase(k *vt.K) {
	e := newPendingEnv(k, 25)
	defer func() { _ = os.RemoveAll(e.dir) }()
	calls := []string{"openat", "write", "fsync,fdatasync", "rename,renameat,renameat2", "close"}
	call := calls[k.Idx%len(calls)]
	when := 1 + k.R.Intn(12)
	action := "signal=SIGKILL"
	if k.Idx%2 == 1 && call != "close" {
		action = "error=" + []string{"EIO", "ENOSPC"}[k.R.Intn(2)]
	}
	if call == "openat" {
		when++
	}
	what := fmt.Sprintf("%s at %s number %d", action, call, when)
	k.Tracef("%s", what)
	ok, done := e.run(k, []string{"-o", "/dev/null", "-P", e.path, "-P", e.path + ".tmp", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:%s:when=%d", call, action, when)}, -1, 0)
	if !ok {
		return
	}
	if !done {
		k.Count("crashes at system calls")
		k.Seen("crash points", call+" "+action)
	}
	if ok, done = e.run(k, nil, -1, 0); ok {
		k.Check(done && e.next == len(e.states)-1, "died", "%s: afterwards the process died, after %d operations", what, e.next)
	}
	k.Eval("crashpoint "+what+fmt.Sprint(k.Idx), true)
}

var (
	reWrite  = regexp.MustCompile(`(write|pwrite64|writev|ftruncate)\(\d+<([^>]*)>`)
	reSync   = regexp.MustCompile(`(fsync|fdatasync)\(\d+<([^>]*)>`)
	reOpen   = regexp.MustCompile(`openat\([^"]*"([^"]*)", ([A-Z_|]+)`)
	reRename = regexp.MustCompile(`rename(?:at2?)?\((?:AT_FDCWD(?:<[^>]*>)?, )?"([^"]*)", (?:AT_FDCWD(?:<[^>]*>)?, )?"([^"]*)"`)
)

// traceOrder checks in a trace of system calls that what replaces path was synced after its last
// write, and that path is never written to in place. It returns the number of replacements.
func traceOrder(k *vt.K, logp, path string) (renames int) {
	b, err := os.ReadFile(logp)
	if err != nil {
		return 0
	}
	dirty := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		if m := reWrite.FindStringSubmatch(l); m != nil {
			dirty[m[2]] = true
			if m[2] == path {
				k.Failf("in-place", "%s is overwritten in place: %.200s", path, l)
				return
			}
		} else if m := reSync.FindStringSubmatch(l); m != nil {
			dirty[m[2]] = false
		} else if m := reOpen.FindStringSubmatch(l); m != nil && m[1] == path && strings.Contains(m[2], "O_TRUNC") {
			k.Failf("in-place", "%s is truncated in place: %.200s", path, l)
			return
		} else if m := reRename.FindStringSubmatch(l); m != nil && m[2] == path {
			renames++
			if dirty[m[1]] {
				k.Failf("unsynced", "the new file replaces the old one before it's synced: %.200s", l)
				return
			}
		}
	}
	return renames
}

const straceOrderCalls = "trace=openat,write,pwrite64,writev,ftruncate,fsync,fdatasync,rename,renameat,renameat2"

func pendingOrderCase(k *vt.K) {
	e := newPendingEnv(k, 25)
	defer func() { _ = os.RemoveAll(e.dir) }()
	logp := filepath.Join(e.dir, "trace")
	ok, done := e.run(k, []string{"-y", "-o", logp, "-e", straceOrderCalls}, -1, 0)
	if !ok || !done {
		return
	}
	n := traceOrder(k, logp, e.path)
	k.C.Count("replacements observed", int64(n))
	k.Eval(fmt.Sprint("order", k.Idx), n > 0)
}

func straceWorks() bool { return exec.Command("strace", "-f", "-o", "/dev/null", "true").Run() == nil }

func checkC25(c *vt.C) {
	c.Cases("model", c.N(160, 10000), 0, pendingModelCase)
	c.Cases("parallel", c.N(40, 1500), 0, pendingParallelCase)
	c.Cases("fail", c.N(40, 800), 0, pendingFailCase)
	c.Cases("kill", c.N(10, 300), 8, pendingKillCase)
	if straceWorks() {
		c.Cases("crashpoint", c.N(30, 500), 8, pendingCrashpointCase)
		c.Cases("order", c.N(2, 8), 2, pendingOrderCase)
	} else {
		c.Count("strace unavailable", 1)
	}
	c.Require("lists compared", 3000)
	c.Require("kills", 40)
}
