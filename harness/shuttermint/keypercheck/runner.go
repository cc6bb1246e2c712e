package main

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"golang.org/x/sync/errgroup"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// C26: running actions. The real RunEnv sends to a scripted message sender and to a simulated
// Ethereum node with faults, is stopped at random moments and started again from its file.

var (
	abiExecutor  = mustABI(contract.ExecutorContractABI)
	abiSlasher   = mustABI(contract.KeyperSlasherABI)
	abiBroadcast = mustABI(contract.KeyBroadcastContractABI)
	stubAddr     = contractAddrs{
		config: common.HexToAddress("0xc1"), bcast: common.HexToAddress("0xc2"), batcher: common.HexToAddress("0xc3"),
		executor: common.HexToAddress("0xc4"), deposit: common.HexToAddress("0xc5"), slasher: common.HexToAddress("0xc6"),
	}
)

func mustABI(s string) abi.ABI {
	a, err := abi.JSON(strings.NewReader(s))
	must(err)
	return a
}

type plannedTx struct {
	to   common.Address
	data string
}

// calldata is what has to be sent to the main chain for an action.
func calldata(a fx.IAction) (common.Address, []byte) {
	var b []byte
	var err error
	var to common.Address
	switch x := a.(type) {
	case *fx.ExecuteCipherBatch:
		to = stubAddr.executor
		b, err = abiExecutor.Pack("executeCipherBatch", x.BatchIndex, x.CipherBatchHash, x.Transactions, x.KeyperIndex)
	case *fx.ExecutePlainBatch:
		to = stubAddr.executor
		b, err = abiExecutor.Pack("executePlainBatch", x.BatchIndex, x.Transactions)
	case *fx.SkipCipherBatch:
		to = stubAddr.executor
		b, err = abiExecutor.Pack("skipCipherExecution", x.BatchIndex)
	case *fx.Accuse:
		to = stubAddr.slasher
		b, err = abiSlasher.Pack("accuse", x.HalfStep, x.KeyperIndex)
	case *fx.Appeal:
		to = stubAddr.slasher
		b, err = abiSlasher.Pack("appeal", x.Authorization)
	case *fx.EonKeyBroadcast:
		to = stubAddr.bcast
		b, err = abiBroadcast.Pack("vote", x.KeyperIndex, x.StartBatchIndex, x.EonPublicKey.Marshal())
	default:
		panic(vt.InfraError(fmt.Sprintf("no call data for %T", a)))
	}
	must(err)
	return to, b
}

type actState struct {
	id       fx.ActionID
	act      fx.IAction
	canon    string
	isMsg    bool
	plan     plannedTx
	script   []string // what the message sender or the gas estimation answers, in order
	attempts int
	done     bool // sent successfully or refused for good
	doneWhy  string
	txs      []common.Hash
	lost     int  // sends cut short by a shutdown
	expired  bool // the world shows it expired
	lastTry  time.Time
}

type runWorld struct {
	k    *vt.K
	eth  *ethSim
	path string

	mux       sync.Mutex
	acts      []*actState
	byPlan    map[plannedTx]*actState
	byMsg     map[uint64]*actState
	half      uint64
	accused   map[uint64]bool // half step -> appealed
	view      observe.World
	faults    map[string]int // failures left per method
	hang      map[string]bool
	unhang    chan struct{}
	sending   int
	lastMsg   fx.ActionID
	faulted   int
	lastTx    fx.ActionID
	anyMsg    bool
	anyTx     bool
	ctx       context.Context // of the current incarnation
	cancelled time.Time
	added     fx.ActionID // at least that many actions were added
	trying    *actState   // whose transaction the node saw last
}

func (w *runWorld) logf(f string, a ...interface{}) {
	w.k.Tracef(f, a...)
}

func (w *runWorld) rebuildView() {
	mc := observe.NewMainChain(0)
	mc.NumExecutionHalfSteps = w.half
	for h, appealed := range w.accused {
		mc.Accusations[h] = &observe.Accusation{HalfStep: h, Appealed: appealed}
	}
	w.view = observe.World{MainChain: mc, Shutter: observe.NewShutter()}
	for _, a := range w.acts {
		a.expired = !a.isMsg && a.expiredIn(w.half, w.accused)
	}
}

// expiredIn: the result is there already, or cannot be reached any more.
func (a *actState) expiredIn(half uint64, accused map[uint64]bool) bool {
	switch x := a.act.(type) {
	case *fx.ExecuteCipherBatch:
		return half > 2*x.BatchIndex
	case *fx.ExecutePlainBatch:
		return half > 2*x.BatchIndex+1
	case *fx.SkipCipherBatch:
		return half > 2*x.BatchIndex
	case *fx.Accuse:
		_, ok := accused[x.HalfStep]
		return ok
	case *fx.Appeal:
		ap, ok := accused[x.Authorization.HalfStep]
		return !ok || ap
	}
	return false
}

func (w *runWorld) current() observe.World {
	w.mux.Lock()
	defer w.mux.Unlock()
	return w.view
}

func (w *runWorld) fail(sig, f string, a ...interface{}) { w.k.Failf(sig, f, a...) }

type customErr struct{ retriable bool }

func (e customErr) Error() string     { return "scripted" }
func (e customErr) IsRetriable() bool { return e.retriable }

// SendMessage implements fx.MessageSender.
func (w *runWorld) SendMessage(ctx context.Context, msg *shmsg.Message) error {
	w.mux.Lock()
	w.sending++
	if w.sending > 1 {
		w.fail("overlap", "two messages are sent at the same time")
	}
	var a *actState
	if m := msg.GetBatchConfigStarted(); m != nil {
		a = w.byMsg[m.BatchConfigIndex]
	}
	if a == nil || !proto.Equal(msg, a.act.(*fx.SendShuttermintMessage).Msg) {
		w.fail("unknown-message", "a message was sent that isn't that of any action: %s", msg)
		w.sending--
		w.mux.Unlock()
		return nil
	}
	if a.done {
		w.fail("again", "message of action %d is sent again after it was %s", a.id, a.doneWhy)
	}
	if w.anyMsg && a.id < w.lastMsg {
		w.fail("order", "message of action %d is sent after that of action %d", a.id, w.lastMsg)
	}
	for _, b := range w.acts {
		if b.isMsg && b.id < a.id && !b.done {
			w.fail("overtake", "message of action %d is sent although that of action %d isn't finished", a.id, b.id)
		}
	}
	if a.attempts > 0 && a.lastTry.Add(50*time.Millisecond).After(time.Now()) && w.ctx.Err() == nil {
		w.k.Count("quick retries")
	}
	w.anyMsg, w.lastMsg = true, a.id
	what := "ok"
	if a.attempts < len(a.script) {
		what = a.script[a.attempts]
	}
	a.attempts++
	w.k.Count("messages sent")
	w.mux.Unlock()

	var err error
	done := false
	switch {
	case what == "ok":
		done = true
	case what == "retriable":
		err = errors.New(tmErrors[int(a.id)%len(tmErrors)])
	case what == "custom-retriable":
		err = customErr{true}
	case what == "refused":
		err, done = &fx.RemoteError{}, true
	case what == "non-retriable":
		err, done = &fx.NonRetriableError{Err: errors.New("no")}, true
	case what == "custom-refused":
		err, done = customErr{false}, true
	case strings.HasPrefix(what, "slow"):
		var ms int
		fmt.Sscanf(what, "slow%d", &ms)
		select {
		case <-time.After(time.Duration(ms) * time.Millisecond):
			done = true
		case <-ctx.Done():
			err = ctx.Err()
		}
	}
	w.mux.Lock()
	w.sending--
	a.lastTry = time.Now()
	w.logf("message of action %d: %s -> %v", a.id, what, err)
	if done {
		a.done, a.doneWhy = true, what
	}
	w.mux.Unlock()
	return err
}

func (w *runWorld) accepted(tx *types.Transaction) { // called by the node with its lock held
	w.mux.Lock()
	defer w.mux.Unlock()
	a := w.byPlan[plannedTx{*tx.To(), string(tx.Data())}]
	if a == nil {
		w.fail("unknown-tx", "a transaction was sent that isn't that of any action: to %s, data %x", tx.To().Hex(), tx.Data())
		return
	}
	w.logf("transaction of action %d: %s", a.id, tx.Hash().Hex()[:10])
	w.k.Count("transactions sent")
	if a.done {
		w.fail("tx-again", "transaction of action %d is sent again after it was %s", a.id, a.doneWhy)
	}
	if len(a.txs) > a.lost {
		w.fail("tx-twice", "transaction of action %d is sent twice: %s and %s", a.id, a.txs[len(a.txs)-1].Hex(), tx.Hash().Hex())
	}
	if w.anyTx && a.id < w.lastTx {
		w.fail("tx-order", "transaction of action %d is sent after that of action %d", a.id, w.lastTx)
	}
	if a.expired {
		w.fail("tx-expired", "transaction of action %d is sent although the action had expired", a.id)
	}
	w.anyTx, w.lastTx = true, a.id
	w.trying = a
	a.txs = append(a.txs, tx.Hash())
	a.lastTry = time.Now()
}

// nodeErrors are errors that nodes, proxies and connections give; none of them tells that what was
// asked for is impossible for good.
var nodeErrors = []string{
	"the node isn't well", "connection refused", "EOF", "unexpected EOF", "read: connection reset by peer", "i/o timeout",
	"context deadline exceeded", "429 Too Many Requests: rate limit exceeded", "502 Bad Gateway", "internal error",
	"header not found", "not found", "missing trie node", "nonce too low", "nonce too high", "already known",
	"replacement transaction underpriced", "transaction underpriced", "txpool is full", "insufficient funds for gas * price + value",
	"execution aborted (timeout = 5s)", "method handler crashed", "project ID request rate exceeded", "client is closed",
}

// tmErrors are errors that shuttermint nodes and the connection to them give.
var tmErrors = []string{
	"the node isn't well", "connection refused", "EOF", "i/o timeout", "context deadline exceeded", "status code 500",
	"mempool is full: number of txs 5000 (max: 5000)", "tx already exists in cache", "Internal error", "502 Bad Gateway",
	"max_subscriptions_per_client 5 reached", "error on broadcastTxCommit: failed to subscribe to tx",
}

func (w *runWorld) fault(method string) error {
	w.mux.Lock()
	if w.hang[method] {
		ch := w.unhang
		w.mux.Unlock()
		<-ch
		return errors.New("the node was down")
	}
	defer w.mux.Unlock()
	if w.faults[method] > 0 {
		w.faults[method]--
		w.k.Count("failing RPCs")
		w.k.Seen("failing RPCs", method)
		w.logf("%s fails", method)
		switch method { // those the current action needs
		case "chainId", "getTransactionCount", "gasPrice", "sendRawTransaction", "estimateGas":
			w.maybeExpire()
		}
		w.faulted++
		return errors.New(nodeErrors[(w.k.Idx+w.faulted)%len(nodeErrors)])
	}
	return nil
}

// maybeExpire lets the next action that isn't sent yet expire.
func (w *runWorld) maybeExpire() {
	for _, a := range w.acts {
		if a.isMsg || len(a.txs) > 0 || a.done || a.expired {
			continue
		}
		if a.id%3 != 0 {
			return
		}
		switch x := a.act.(type) {
		case *fx.ExecuteCipherBatch:
			w.half = 2*x.BatchIndex + 1
		case *fx.ExecutePlainBatch:
			w.half = 2*x.BatchIndex + 2
		case *fx.SkipCipherBatch:
			w.half = 2*x.BatchIndex + 1
		case *fx.Accuse:
			w.accused[x.HalfStep] = false
		case *fx.Appeal:
			w.accused[x.Authorization.HalfStep] = true
		default:
			return
		}
		w.rebuildView()
		w.logf("action %d expires", a.id)
		w.k.Count("actions expired while failing")
		return
	}
}

func (w *runWorld) estimate(to common.Address, data []byte) error { // node's lock held
	w.mux.Lock()
	defer w.mux.Unlock()
	a := w.byPlan[plannedTx{to, string(data)}]
	if a == nil {
		w.fail("unknown-tx", "gas is estimated for a call that isn't that of any action: to %s, data %x", to.Hex(), data)
		return nil
	}
	if a.expired {
		w.fail("try-expired", "action %d is tried although it had expired", a.id)
	}
	if a.done {
		w.fail("tx-again", "action %d is tried again after it was refused: %s", a.id, a.doneWhy)
	}
	i := a.attempts
	a.attempts++
	w.trying = a
	if i < len(a.script) && a.script[i] != "" {
		w.logf("action %d: %s", a.id, a.script[i])
		if nonRetriable(a.act, a.script[i]) {
			a.done, a.doneWhy, a.lastTry = true, a.script[i], time.Now()
			w.k.Count("calls refused for good")
		}
		return &revertError{errors.New("execution reverted: KeyperSlasher: " + a.script[i]), "0x"}
	}
	return nil
}

func nonRetriable(a fx.IAction, why string) bool {
	switch a.(type) {
	case *fx.Accuse:
		return why == "already accused" || why == "cannot accuse empty batch"
	case *fx.Appeal:
		return why == "wrong signer"
	}
	return false
}

// newAction makes the action with the given id.
func (w *runWorld) newAction(r *rand.Rand, id fx.ActionID, txShare int) fx.IAction {
	a := &actState{id: id}
	u := uint64(1000 + 7*id) // identifies the action
	if r.Intn(100) >= txShare {
		a.isMsg = true
		a.act = &fx.SendShuttermintMessage{Description: fmt.Sprint("message ", id), Msg: shmsg.NewBatchConfigStarted(u)}
		for n := []int{0, 0, 0, 1, 2}[r.Intn(5)]; n > 0; n-- {
			a.script = append(a.script, []string{"retriable", "custom-retriable"}[r.Intn(2)])
		}
		a.script = append(a.script, []string{"ok", "ok", "ok", "refused", "non-retriable", "custom-refused", "slow200", "slow30", "slow1500"}[r.Intn(9)])
		w.byMsg[u] = a
	} else {
		a.act = randAction(r)
		if r.Intn(8) == 0 {
			u = uint64(id) // has expired already
		}
		switch x := a.act.(type) {
		case *fx.SendShuttermintMessage:
			a.act = &fx.SkipCipherBatch{BatchIndex: u}
		case *fx.ExecuteCipherBatch:
			x.BatchIndex = u
			x.TransactionGasLimit = uint64(r.Intn(100_000))
		case *fx.ExecutePlainBatch:
			x.BatchIndex = u
			x.TransactionGasLimit = uint64(r.Intn(100_000))
		case *fx.SkipCipherBatch:
			x.BatchIndex = u
		case *fx.Accuse:
			x.HalfStep = u
			a.script = w.callScript(r, []string{"already accused", "cannot accuse empty batch", "half step not yet executed", "wrong signer"})
		case *fx.Appeal:
			x.Authorization.HalfStep = u
			a.script = w.callScript(r, []string{"wrong signer", "not enough signatures", "already accused"})
			if r.Intn(5) > 0 {
				w.accused[u] = false
			}
		case *fx.EonKeyBroadcast:
			x.StartBatchIndex = u
		}
		to, data := calldata(a.act)
		a.plan = plannedTx{to, string(data)}
		w.byPlan[a.plan] = a
	}
	a.canon = canonAction(a.act)
	w.acts = append(w.acts, a)
	return a.act
}

func (w *runWorld) callScript(r *rand.Rand, msgs []string) []string {
	var s []string
	for n := []int{0, 0, 1, 1, 2}[r.Intn(5)]; n > 0; n-- {
		s = append(s, msgs[r.Intn(len(msgs))])
	}
	return s
}

// mined tells whether the transaction is in a block.
func (w *runWorld) mined(h common.Hash) bool {
	w.eth.mux.Lock()
	defer w.eth.mux.Unlock()
	b, _ := w.eth.find(h)
	return b != nil
}

// unfinished explains why an action must still be pending, or returns "".
func (w *runWorld) unfinished(a *actState) string {
	w.mux.Lock()
	done, expired, txs := a.done, a.expired, append([]common.Hash{}, a.txs...)
	w.mux.Unlock()
	switch {
	case done:
		return ""
	case a.isMsg:
		return "its message was not sent successfully"
	case len(txs) <= a.lost && expired:
		return ""
	case len(txs) == 0:
		return "its transaction was not sent"
	}
	if h := txs[len(txs)-1]; !w.mined(h) {
		return "its transaction " + h.Hex() + " is not mined"
	}
	return ""
}

// checkList compares a list of pending actions with what must be in it. All actions with an id below n were added.
func (w *runWorld) checkList(p *fx.PendingActions, n fx.ActionID, when string, hashes bool) {
	in := map[fx.ActionID]bool{}
	for _, id := range p.SortedIDs() {
		in[id] = true
		if id >= w.added {
			w.added = id + 1
		}
	}
	if n < w.added {
		n = w.added
	}
	w.mux.Lock()
	acts := append([]*actState{}, w.acts...)
	w.mux.Unlock()
	for _, a := range acts {
		if a.id >= n {
			continue
		}
		if !in[a.id] {
			if why := w.unfinished(a); why != "" {
				w.fail("forgotten", "%s: action %d (%s) is no longer pending although %s", when, a.id, a.canon, why)
			}
			continue
		}
		if !hashes {
			continue
		}
		if c := canonAction(p.GetAction(a.id)); c != a.canon {
			w.fail("changed", "%s: action %d is %s instead of %s", when, a.id, c, a.canon)
		}
		w.mux.Lock()
		var want common.Hash
		if len(a.txs) > 0 {
			want = a.txs[len(a.txs)-1]
		}
		late := a == w.trying && w.cancelled.Sub(a.lastTry) < 30*time.Second // the last answer may have been cut off
		if a.done && !a.isMsg && late {
			w.k.Count("answers cut off by a shutdown")
			a.done = false
		}
		w.mux.Unlock()
		if got := p.GetMainChainTXHash(a.id); got != want {
			if got == (common.Hash{}) && late {
				w.mux.Lock()
				a.lost = len(a.txs)
				w.mux.Unlock()
				w.k.Count("answers cut off by a shutdown")
				continue
			}
			w.fail("hash", "%s: the hash of action %d is %s instead of %s", when, a.id, got.Hex(), want.Hex())
		}
	}
}

func newRunWorld(k *vt.K) *runWorld {
	key := keyOf("runner")
	w := &runWorld{k: k, path: filepath.Join(k.C.Scratch, fmt.Sprintf("c26-%s-%d.gob", k.Name, k.Idx)),
		byPlan: map[plannedTx]*actState{}, byMsg: map[uint64]*actState{}, accused: map[uint64]bool{}, faults: map[string]int{},
		hang: map[string]bool{}, unhang: make(chan struct{}), ctx: context.Background()}
	w.half = 1900
	codes := map[common.Address][]byte{}
	for _, a := range []common.Address{stubAddr.config, stubAddr.bcast, stubAddr.batcher, stubAddr.executor, stubAddr.deposit, stubAddr.slasher} {
		codes[a] = []byte{0} // stop
	}
	if k.R.Intn(2) == 0 {
		codes[stubAddr.executor] = []byte{0xfe} // fails
	}
	w.eth = newEthSim([]common.Address{addrOf(key)}, codes)
	w.eth.fault, w.eth.estimate, w.eth.accepted = w.fault, w.estimate, w.accepted
	w.rebuildView()
	return w
}

func (w *runWorld) caller() (*contract.Caller, func(time.Duration) bool) {
	ew := &ethWorld{ethSim: w.eth, addr: stubAddr}
	cl, end := w.eth.session()
	return ew.caller(keyOf("runner"), cl), end
}

const stopLimit = 10 * time.Second

// incarnation runs the environment until stop says so; it returns false if it could not be ended.
func (w *runWorld) incarnation(counter *uint64, chunk *[]fx.IAction, more func() []fx.IAction, stop func(p *fx.PendingActions) bool) bool {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	g, gctx := errgroup.WithContext(ctx)
	w.mux.Lock()
	w.ctx = gctx
	w.mux.Unlock()
	caller, end := w.caller()
	re := fx.NewRunEnv(w, caller, w.current, w.path)
	loaded := make(chan struct{})
	re.StartBackgroundTasks(gctx, g)
	g.Go(func() error {
		if _, err := re.Load(gctx); err != nil {
			if gctx.Err() == nil {
				w.fail("load", "the pending actions cannot be loaded: %v", err)
			}
			return err
		}
		close(loaded)
		for {
			c := *chunk
			if len(c) == 0 {
				if c = more(); len(c) == 0 {
					<-gctx.Done()
					return gctx.Err()
				}
				*chunk = c
			}
			if err := re.RunActions(gctx, *counter, c); err != nil {
				return err
			}
			*counter += uint64(len(c))
			*chunk = nil
		}
	})
	seen := false
	for !stop(re.PendingActions) && !w.k.Failed() {
		time.Sleep(20 * time.Millisecond)
		select {
		case <-loaded:
			seen = true
		default:
			seen = seen || len(re.PendingActions.SortedIDs()) > 0
		}
		if !seen {
			continue
		}
		w.checkList(re.PendingActions, 0, "while running", false)
		w.k.Count("lists inspected while running")
	}
	w.mux.Lock()
	w.cancelled = time.Now()
	w.mux.Unlock()
	cancel()
	ended := make(chan struct{})
	go func() { _ = g.Wait(); close(ended) }()
	t0 := time.Now()
	select {
	case <-ended:
		if d := time.Since(t0); d > time.Second {
			w.k.Count("stops that took more than a second")
		}
	case <-time.After(stopLimit):
		w.fail("hangs", "the runner still doesn't stop %v after its context was cancelled", stopLimit)
		close(w.unhang)
		return false
	}
	// what's under way at the node isn't left to the next one
	w.mux.Lock()
	w.hang = map[string]bool{}
	close(w.unhang)
	w.unhang = make(chan struct{})
	w.mux.Unlock()
	if !end(time.Minute) {
		panic(vt.InfraError("the simulated node doesn't finish its requests"))
	}
	w.k.Count("stops")
	return true
}

func runnerCase(k *vt.K, nActs, txShare int, flaky bool) {
	w := newRunWorld(k)
	defer func() { _ = os.Remove(w.path); _ = os.Remove(w.path + ".tmp") }()
	r := k.R
	var amux sync.Mutex
	left := nActs
	var counter, savedCounter uint64
	var chunk, savedChunk []fx.IAction
	nextID := fx.ActionID(0)
	more := func() []fx.IAction {
		amux.Lock()
		defer amux.Unlock()
		if left == 0 {
			return nil
		}
		n := 1 + r.Intn(5)
		if n > left {
			n = left
		}
		left -= n
		var c []fx.IAction
		w.mux.Lock()
		for i := 0; i < n; i++ {
			c = append(c, w.newAction(r, nextID, txShare))
			nextID++
		}
		w.rebuildView()
		w.mux.Unlock()
		savedCounter, savedChunk = counter, c // the keyper saves them before it runs them
		return c
	}
	if flaky {
		for _, m := range []string{"chainId", "getTransactionCount", "gasPrice", "sendRawTransaction", "estimateGas", "getTransactionReceipt", "getTransactionReceipt", "getTransactionByHash", "call", "getCode"} {
			if r.Intn(3) == 0 {
				w.faults[m] += 1 + r.Intn(2)
			}
		}
	}
	var mining sync.WaitGroup
	quit := make(chan struct{})
	var mineMux sync.Mutex
	mine := r.Intn(3) > 0
	every := time.Duration(20+r.Intn(600)) * time.Millisecond
	mining.Add(1)
	go func() {
		defer mining.Done()
		for {
			select {
			case <-quit:
				return
			case <-time.After(every):
			}
			mineMux.Lock()
			m := mine
			mineMux.Unlock()
			if m {
				w.eth.mine(nil)
			}
		}
	}()
	defer mining.Wait()
	defer close(quit)
	incs := 1 + r.Intn(4)
	for i := 0; i <= incs; i++ {
		last := i == incs
		var stop func(p *fx.PendingActions) bool
		if !last {
			end := time.Now().Add(time.Duration(50+r.Intn(2500)) * time.Millisecond)
			hang := ""
			if flaky && r.Intn(4) == 0 {
				hang = []string{"chainId", "getTransactionCount", "gasPrice", "sendRawTransaction", "getTransactionReceipt"}[r.Intn(5)]
			}
			stop = func(*fx.PendingActions) bool {
				if hang != "" && time.Until(end) < 500*time.Millisecond {
					w.mux.Lock()
					w.hang[hang] = true
					w.mux.Unlock()
					k.Count("hanging nodes")
					hang = ""
				}
				return time.Now().After(end)
			}
		} else {
			mineMux.Lock()
			mine = true
			mineMux.Unlock()
			end := time.Now().Add(60 * time.Second)
			stop = func(p *fx.PendingActions) bool {
				amux.Lock()
				l := left
				amux.Unlock()
				if l == 0 {
					w.mux.Lock()
					all := true
					for _, a := range w.acts {
						all = all && (a.done || a.expired || len(a.txs) > 0)
					}
					w.mux.Unlock()
					if all && len(p.SortedIDs()) == 0 {
						return true
					}
				}
				if time.Now().After(end) {
					w.debugStuck()
					w.fail("stuck", "after %v without faults the actions %v are still pending", 60*time.Second, p.SortedIDs())
				}
				return false
			}
		}
		k.Tracef("start %d, mining: %v", i, mine)
		ok := w.incarnation(&counter, &chunk, more, stop)
		if !ok || k.Failed() {
			return
		}
		k.Tracef("stopped")
		p := fx.NewPendingActions(w.path)
		if err := p.Load(); !k.Check(err == nil, "load", "the pending actions cannot be loaded: %v", err) {
			return
		}
		if c := uint64(p.CurrentID); !k.Check(c == savedCounter || c == savedCounter+uint64(len(savedChunk)), "counter", "the next id on disk is %d, expected %d or %d", c, savedCounter, savedCounter+uint64(len(savedChunk))) {
			return
		}
		w.checkList(p, p.CurrentID, "after a stop", true)
		counter, chunk = savedCounter, append([]fx.IAction{}, savedChunk...) // what the keyper finds in its state
		if r.Intn(3) == 0 {
			mineMux.Lock()
			mine = !mine
			mineMux.Unlock()
		}
	}
	w.mux.Lock()
	sent := 0
	key := ""
	for _, a := range w.acts {
		if a.done || len(a.txs) > 0 {
			sent++
		}
		key += fmt.Sprintf("%d:%d/%d/%v ", a.id, a.attempts, len(a.txs), a.expired)
		if a.expired && len(a.txs) == 0 {
			k.Count("expired actions not sent")
		}
	}
	w.mux.Unlock()
	k.Eval(key, sent > 1)
	if k.Idx < 3 {
		k.Sample(key)
	}
}

// jamCase: more transactions than there are workers to wait for them.
func jamCase(k *vt.K) { runnerCase(k, 50, 100, false) }

func senderCase(k *vt.K) {
	r := k.R
	key, other := keyOf(fmt.Sprint("sender", k.Idx)), keyOf("other")
	t := newTmSim([]common.Address{addrOf(key), addrOf(other)}, 2, "")
	t.chainID = tmChainID
	ctx := context.Background()
	quit := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-quit:
				return
			case <-time.After(2 * time.Millisecond):
				t.block(t.takeMempool())
			}
		}
	}()
	defer wg.Wait()
	defer close(quit)
	for t.committed() < 2 {
		time.Sleep(time.Millisecond)
	}
	ms := fx.NewRPCMessageSender(t, key)
	nonces := map[uint64]bool{}
	for i := 0; i < 12; i++ {
		msg := randMessage(r)
		sender := &ms
		foreign := r.Intn(5) == 0
		if foreign {
			o := fx.NewRPCMessageSender(t, keyOf("nobody"))
			sender = &o
		}
		failing := ""
		if r.Intn(4) == 0 {
			failing = []string{"broadcast", "blockchain"}[r.Intn(2)]
		}
		text := tmErrors[r.Intn(len(tmErrors))]
		t.mux.Lock()
		// the message is in the mempool, but the node gives up waiting for a block with it
		t.giveUp = failing == "" && r.Intn(6) == 0
		gaveUp := t.giveUp
		t.fault = func(m string) error {
			if m == failing {
				return errors.New(text)
			}
			return nil
		}
		n := len(t.txs)
		asked := t.calls["blockchain"]
		t.mux.Unlock()
		err := sender.SendMessage(ctx, msg)
		t.mux.Lock()
		t.fault, t.giveUp = nil, false
		var mine []tmTx
		mine = append(mine, t.txs[n:]...)
		hit := failing == "broadcast" || failing == "blockchain" && t.calls["blockchain"] > asked
		t.mux.Unlock()
		k.Count("messages through the sender")
		if hit {
			k.Count("sender: node fails")
			k.Check(err != nil && fx.IsRetriable(err) && len(mine) == 0, "sender-fault", "when the node fails sending gives %v, retriable %v, and %d transactions", err, err != nil && fx.IsRetriable(err), len(mine))
			continue
		}
		if gaveUp {
			k.Count("sender: node gives up")
			k.Check(err != nil, "sender-gave-up", "the node gave up waiting for the message's block, but sending it gives no error")
			if err != nil && !fx.IsRetriable(err) {
				k.Check(len(mine) == 0, "sender-gave-up", "the node gave up waiting for the message's block, sending gives the final error %v", err)
				continue // refused before the node waited
			}
			for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
				t.mux.Lock()
				there := len(t.txs) > n
				t.mux.Unlock()
				if there {
					break
				}
				if time.Now().After(end) {
					panic(vt.InfraError("the simulated node doesn't make blocks"))
				}
			}
			continue
		}
		took := len(mine) == 1 && mine[0].res.Code == 0
		if took {
			k.Count("sender: accepted")
			k.Check(err == nil, "sender-error", "an accepted message gives the error %v", err)
		} else {
			k.Count(fmt.Sprintf("sender: refused (in a block: %v)", len(mine) > 0))
			k.Check(err != nil && !fx.IsRetriable(err), "sender-refused", "a refused message (%s) gives the error %v; in a block: %d", msg, err, len(mine))
		}
		if len(mine) > 1 {
			k.Failf("sender-twice", "one message makes %d transactions", len(mine))
		}
		for _, tx := range mine {
			signed, err := base64.RawURLEncoding.DecodeString(string(tx.raw))
			if !k.Check(err == nil, "sender-encoding", "what was sent cannot be decoded: %v", err) {
				return
			}
			signer, err := shmsg.GetSigner(signed)
			k.Check(err == nil && signer == addrOf(key), "sender-signer", "the signer of the message is %s: %v", signer.Hex(), err)
			got, err := shmsg.GetMessage(signed)
			if !k.Check(err == nil && proto.Equal(got.Msg, msg) && string(got.ChainId) == tmChainID, "sender-content", "the message on chain is %s instead of %s", got, msg) {
				return
			}
			k.Check(!nonces[got.RandomNonce], "sender-nonce", "nonce %d is used twice", got.RandomNonce)
			nonces[got.RandomNonce] = true
		}
	}
	k.Eval(fmt.Sprint("sender", k.Idx), true)
}

// expiryCase compares IsExpired with its meaning on random worlds.
func expiryCase(k *vt.K) {
	for i := 0; i < 50; i++ {
		a := &actState{act: randAction(k.R)}
		mc := observe.NewMainChain(0)
		accused := map[uint64]bool{}
		var half uint64
		b := uint64(k.R.Intn(4))
		switch x := a.act.(type) {
		case *fx.ExecuteCipherBatch:
			x.BatchIndex = b
		case *fx.ExecutePlainBatch:
			x.BatchIndex = b
		case *fx.SkipCipherBatch:
			x.BatchIndex = b
		case *fx.Accuse:
			x.HalfStep = b
		case *fx.Appeal:
			x.Authorization.HalfStep = b
		}
		half = uint64(k.R.Intn(10))
		for n := k.R.Intn(4); n > 0; n-- {
			h := uint64(k.R.Intn(4))
			accused[h] = k.R.Intn(2) == 0
			mc.Accusations[h] = &observe.Accusation{HalfStep: h, Appealed: accused[h]}
		}
		mc.NumExecutionHalfSteps = half
		got := a.act.IsExpired(observe.World{MainChain: mc, Shutter: observe.NewShutter()})
		k.C.Count(fmt.Sprintf("expiries judged (%v)", got), 1)
		if !k.Check(got == a.expiredIn(half, accused), "expiry", "with %d half steps and accusations %v, %s expired: %v", half, accused, canonAction(a.act), got) {
			return
		}
	}
	k.Eval(fmt.Sprint("expiry", k.Idx), true)
}

func checkC26(c *vt.C) {
	c.Cases("expiry", c.N(100, 2000), 0, expiryCase)
	c.Cases("sender", c.N(60, 2000), 0, senderCase)
	c.Cases("jam", c.N(12, 200), 48, jamCase)
	c.Cases("calm", c.N(60, 1500), 64, func(k *vt.K) { runnerCase(k, 5+k.R.Intn(20), []int{0, 50, 100}[k.Idx%3], false) })
	c.Cases("flaky", c.N(120, 4000), 64, func(k *vt.K) { runnerCase(k, 3+k.R.Intn(12), []int{30, 70, 100}[k.Idx%3], true) })
	c.Require("stops", 300)
	c.Require("messages sent", 300)
	c.Require("transactions sent", 500)
	c.Require("failing RPCs", 100)
}

func (w *runWorld) debugStuck() {
	w.eth.mux.Lock()
	defer w.eth.mux.Unlock()
	w.logf("head %d, pool:", len(w.eth.blocks)-1)
	for _, tx := range w.eth.pool {
		w.logf("  nonce %d gas %d %s", tx.Nonce(), tx.Gas(), tx.Hash().Hex()[:10])
	}
	w.logf("calls %v", w.eth.calls)
}
