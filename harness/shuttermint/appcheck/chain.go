package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/tendermint/tendermint/p2p"
	"github.com/tendermint/tendermint/privval"
	rpchttp "github.com/tendermint/tendermint/rpc/client/http"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

func infra(err error) {
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
}

// chainNode is one node: the program running "chain" on a directory made by "init".
type chainNode struct {
	k        *vt.K
	name     string
	root     string
	index    int
	initArgs []string
	id       string // p2p id
	val      []byte // validator key
	persist  string // VERIF_PERSIST_MS
	peers    string
	gen      []byte // genesis file
	cl       *rpchttp.HTTP

	cmd      *exec.Cmd
	log      *os.File
	exited   chan struct{}
	waitErr  error
	expected bool // it has been told to end
	stopped  bool // SIGSTOP
	ready    bool
	since    time.Time
	back     time.Time // when to start it again
	runs     int
	revived  int
	readyAt  time.Time
	logFrom  int64
	trap     string // the run ends at this point, if it gets there
}

var (
	portMux  sync.Mutex
	portUsed = map[int]net.Listener{}
)

// freeIndex finds an index whose ports are free.
func freeIndex(r *rand.Rand) int {
	portMux.Lock()
	defer portMux.Unlock()
	for try := 0; try < 500; try++ {
		i := r.Intn(2900)
		if portUsed[i] != nil {
			continue
		}
		// The abstract socket keeps the index for this process: a node that is down leaves its
		// ports to others.
		claim, err := net.Listen("unix", fmt.Sprintf("@verif-shutter-node-%d", i))
		if err != nil {
			continue
		}
		ok := true
		for p := 26656 + 2*i; p < 26658+2*i; p++ {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
			if err != nil {
				ok = false
				break
			}
			l.Close()
		}
		if ok {
			portUsed[i] = claim
			return i
		}
		claim.Close()
	}
	panic(vt.InfraError("no free ports"))
}

func releaseIndex(i int) {
	portMux.Lock()
	if portUsed[i] != nil {
		portUsed[i].Close()
	}
	delete(portUsed, i)
	portMux.Unlock()
}

func (n *chainNode) file(p ...string) string { return filepath.Join(append([]string{n.root}, p...)...) }

func (n *chainNode) read(p ...string) []byte {
	b, err := os.ReadFile(n.file(p...))
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
	return b
}

// init runs "init".
func (n *chainNode) init() bool {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_SHUTTERMINT"), n.initArgs...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + n.root}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.k.Failf("init-fails", "%v fails: %v\n%s", n.initArgs, err, out)
		return false
	}
	n.k.Count("init runs")
	return true
}

var tomlField = regexp.MustCompile(`(?m)^(persistent_peers|addr_book_strict|fast_sync|peer_gossip_sleep_duration)\s*=.*$`)

// connect writes what an operator would change in config.toml.
func (n *chainNode) connect(peers string) {
	n.peers = peers
	c := string(n.read("config", "config.toml"))
	want := map[string]string{"persistent_peers": fmt.Sprintf("%q", peers), "addr_book_strict": "false", "fast_sync": fmt.Sprint(n.name == "late" || n.k.R.Intn(3) > 0), "peer_gossip_sleep_duration": `"10ms"`}
	found := 0
	c = tomlField.ReplaceAllStringFunc(c, func(l string) string {
		key := strings.TrimSpace(strings.SplitN(l, "=", 2)[0])
		found++
		return key + " = " + want[key]
	})
	if found != 4 {
		panic(vt.InfraError(fmt.Sprintf("unexpected config file (%d fields found)", found)))
	}
	infra(os.WriteFile(n.file("config", "config.toml"), []byte(c), 0o644))
}

var (
	traceOnce  sync.Once
	traceWorks bool
)

// canTrace tells whether a process can be traced by one of its descendants.
func canTrace() bool {
	traceOnce.Do(func() {
		traceWorks = exec.Command("strace", "-D", "-f", "-qq", "-o", "/dev/null", "-e", "trace=fsync", "true").Run() == nil
	})
	return traceWorks
}

// setTrap chooses a point at which the next run of the node will be killed: at a system call that
// saves something, or between a save of the application's state and the next step.
func (n *chainNode) setTrap() (opts []string) {
	if !canTrace() {
		n.k.Count("strace unavailable")
		return nil
	}
	r := n.k.R
	gob := n.file("data", "shutter.gob")
	const renames = "rename,renameat,renameat2"
	opts = []string{"-D", "-f", "-qq", "-o", "/dev/null"}
	switch r.Intn(3) {
	case 0: // the application's state
		call := []string{"openat", "write", "fsync,fdatasync", renames}[r.Intn(4)]
		at := 1 + r.Intn(5) // counted by thread
		n.trap = fmt.Sprintf("state file: %s %d", call, at)
		return append(opts, "-P", gob, "-P", gob+".tmp", "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", call, at))
	default: // the state has been saved
		at := 1 + r.Intn(3)
		n.trap = fmt.Sprintf("state saved %d", at)
		n.k.Tracef("trap for %s: %s", n.name, n.trap)
		return append(opts, "-P", gob, "-P", gob+".tmp", "-e", "trace="+renames, "-e", "inject="+renames+":delay_exit=150000")
	}
}

// stat identifies the state file.
func (n *chainNode) stat() (x [2]int64) {
	var st syscall.Stat_t
	if syscall.Stat(n.file("data", "shutter.gob"), &st) == nil {
		x = [2]int64{int64(st.Ino), st.Mtim.Nano()}
	}
	return
}

// spring kills the process when the state has been saved as often as wanted.
func (n *chainNode) spring(cmd *exec.Cmd, exited chan struct{}) {
	var at int
	if _, err := fmt.Sscanf(n.trap, "state saved %d", &at); err != nil {
		return
	}
	last := n.stat()
	go func() {
		for at > 0 {
			select {
			case <-exited:
				return
			case <-time.After(2 * time.Millisecond):
			}
			if x := n.stat(); x != last {
				last = x
				at--
			}
		}
		_ = cmd.Process.Kill()
	}()
}

// trapped notices that the node was killed by a trap.
func (n *chainNode) trapped() bool {
	if n.cmd == nil || n.trap == "" || n.expected {
		return false
	}
	select {
	case <-n.exited:
	default:
		return false
	}
	if e, ok := n.waitErr.(*exec.ExitError); !ok || e.Sys().(syscall.WaitStatus).Signal() != syscall.SIGKILL {
		return false
	}
	n.k.Tracef("%s killed (%s)", n.name, n.trap)
	n.k.Count("kills at chosen points")
	n.k.Seen("chosen points", strings.TrimRight(n.trap, " 0123456789"))
	n.cmd, n.trap = nil, ""
	n.back = time.Now()
	return true
}

// start starts the node; with a trap it's killed at some point, maybe.
func (n *chainNode) start() { n.run(false) }

func (n *chainNode) run(trap bool) {
	var err error
	n.log, err = os.OpenFile(n.file("log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	infra(err)
	if st, err := n.log.Stat(); err == nil {
		n.logFrom = st.Size()
	}
	args := []string{os.Getenv("VERIF_SHUTTERMINT"), "chain", "--config", n.file("config", "config.toml")}
	n.trap = ""
	if trap {
		if opts := n.setTrap(); opts != nil {
			args = append(append([]string{"strace"}, opts...), args...)
		}
	}
	n.cmd = exec.Command(args[0], args[1:]...)
	n.cmd.Dir = n.root
	n.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + n.root, "GOTRACEBACK=all", "GOMAXPROCS=3", "VERIF_PERSIST_MS=" + n.persist}
	n.cmd.Stdout, n.cmd.Stderr = n.log, n.log
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	n.exited, n.expected, n.stopped, n.ready, n.since = make(chan struct{}), false, false, false, time.Now()
	infra(n.cmd.Start())
	n.runs++
	n.k.Tracef("%s starts (run %d) %s", n.name, n.runs, n.trap)
	n.spring(n.cmd, n.exited)
	go func(cmd *exec.Cmd, ch chan struct{}) {
		n.waitErr = cmd.Wait()
		n.log.Close()
		close(ch)
	}(n.cmd, n.exited)
}

func (n *chainNode) running() bool { return n.cmd != nil }

// logTail is what the node printed.
func (n *chainNode) logTail(max int) string {
	b, _ := os.ReadFile(n.file("log"))
	if len(b) > max {
		b = b[len(b)-max:]
	}
	return string(b)
}

// watch finds out if the node died on its own.
func (n *chainNode) watch() bool {
	if n.cmd == nil {
		return true
	}
	select {
	case <-n.exited:
		if n.trapped() {
			n.start()
			return true
		}
		if !n.expected {
			n.cmd = nil
			n.k.Failf("node-dies", "%s dies on its own: %v\n%s", n.name, n.waitErr, crashPart(n.logTail(400000)))
			return false
		}
	default:
	}
	return true
}

// dump is the part of a log that begins with the output for SIGQUIT.
func dump(l string) string {
	if i := strings.LastIndex(l, "SIGQUIT"); i >= 0 {
		return l[i:]
	}
	return l
}

// crashPart is the interesting part of a log.
func crashPart(l string) string {
	for _, mark := range []string{"panic: ", "fatal error: ", "CONSENSUS FAILURE"} {
		if i := strings.LastIndex(l, mark); i >= 0 {
			from := i - 1500
			if from < 0 {
				from = 0
			}
			to := i + 4000
			if to > len(l) {
				to = len(l)
			}
			return l[from:to]
		}
	}
	if len(l) > 3000 {
		l = l[len(l)-3000:]
	}
	return l
}

func (n *chainNode) kill() {
	if n.cmd == nil {
		return
	}
	n.expected = true
	_ = n.cmd.Process.Kill()
	<-n.exited
	n.cmd = nil
	n.k.Tracef("%s killed", n.name)
}

// terminate stops the node the way an operator does.
func (n *chainNode) terminate(sig syscall.Signal) bool {
	n.expected = true
	// the program asks for signals after the node's RPC server has started
	up := n.ready && time.Since(n.readyAt) > 10*time.Second
	_ = n.cmd.Process.Signal(sig)
	select {
	case <-n.exited:
	case <-time.After(60 * time.Second):
		_ = n.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-n.exited:
		case <-time.After(10 * time.Second):
			n.kill()
		}
		n.cmd = nil
		n.k.Failf("shutdown-hangs", "%s doesn't end within 60 seconds after %v\n%s", n.name, sig, dump(n.logTail(400000)))
		return false
	}
	n.cmd = nil
	n.k.Tracef("%s stopped with %v: %v", n.name, sig, n.waitErr)
	n.k.Count("orderly stops")
	if e, ok := n.waitErr.(*exec.ExitError); ok && n.trap != "" && e.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL {
		return true
	}
	if e, ok := n.waitErr.(*exec.ExitError); ok && !up && e.Sys().(syscall.WaitStatus).Signal() == sig {
		n.k.Count("stops of nodes that had just started")
		return true
	}
	if n.ready && n.waitErr != nil {
		n.k.Failf("shutdown-fails", "%s ends with %v after %v\n%s", n.name, n.waitErr, sig, crashPart(n.logTail(400000)))
		return false
	}
	return true
}

func rpcCtx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 10*time.Second)
}

func (n *chainNode) height() int64 {
	if n.cmd == nil || n.stopped {
		return -1
	}
	ctx, cancel := rpcCtx()
	defer cancel()
	st, err := n.cl.Status(ctx)
	if err != nil {
		return -1
	}
	if !n.ready {
		n.ready, n.readyAt = true, time.Now()
	}
	return st.SyncInfo.LatestBlockHeight
}

// chainBlock is what a node reports about a block.
type chainBlock struct {
	h    int64
	hash string
	txs  []tmtypes.Tx
	res  *ctypes.ResultBlockResults
}

func (n *chainNode) block(h int64) (*chainBlock, error) {
	ctx, cancel := rpcCtx()
	defer cancel()
	b, err := n.cl.Block(ctx, &h)
	if err != nil {
		return nil, err
	}
	if b.Block == nil {
		return nil, fmt.Errorf("no block %d", h)
	}
	res, err := n.cl.BlockResults(ctx, &h)
	if err != nil {
		return nil, err
	}
	return &chainBlock{h: h, hash: b.BlockID.Hash.String(), txs: b.Block.Txs, res: res}, nil
}

// results renders what the application answered.
func (b *chainBlock) results() (txs []delivered, ups []mUpdate) {
	for _, r := range b.res.TxsResults {
		d := delivered{ok: r.Code == 0}
		for _, e := range r.Events {
			c, err := canon(e)
			if err != nil {
				d.bad = fmt.Sprintf("%s %v: %v", e.Type, e.Attributes, err)
				c = "undecodable " + e.Type
			}
			d.events = append(d.events, c)
		}
		txs = append(txs, d)
	}
	for _, u := range b.res.ValidatorUpdates {
		ups = append(ups, mUpdate{string(u.PubKey.GetEd25519()), u.Power})
	}
	return
}

func (b *chainBlock) String() string {
	txs, ups := b.results()
	l := []string{b.hash}
	for i, t := range txs {
		l = append(l, fmt.Sprintf("%x %v %v", b.txs[i].Hash()[:6], t.ok, t.events))
	}
	sort.Slice(ups, func(i, j int) bool { return ups[i].key < ups[j].key })
	return strings.Join(l, "\n") + "\n" + upString(ups)
}

// cluster is a chain of several nodes and the model of its application.
type cluster struct {
	k     *vt.K
	nodes []*chainNode
	m     *model
	dev   bool
	chain string
	fed   int64 // blocks given to the model
	seen  map[int64]string
	vals  map[int64]map[string]int64 // validators that decide a height
	txs   int
	acc   int
	sent  map[string]bool
	done  map[string]bool // transactions in blocks
}

func (c *cluster) close() {
	for _, n := range c.nodes {
		n.kill()
		releaseIndex(n.index)
		rmdir(n.root)
	}
}

func (c *cluster) newNode(name string, keypers []common.Address) *chainNode {
	n := &chainNode{k: c.k, name: name, root: filepath.Join(c.k.C.Scratch, fmt.Sprintf("chain-%s-%d-%s", c.k.Name, c.k.Idx, name)), index: freeIndex(c.k.R)}
	mkdir(n.root)
	blockTime := []string{"0.05", "0.1", "0.2"}[c.k.R.Intn(3)]
	n.initArgs = []string{"init", "--root", n.root, "--index", fmt.Sprint(n.index), "--blocktime", blockTime}
	if c.dev {
		n.initArgs = append(n.initArgs, "--dev")
	}
	for _, a := range keypers {
		n.initArgs = append(n.initArgs, "--genesis-keyper", a.Hex())
	}
	n.persist = []string{"0", "60", "500", "2000", "30000"}[c.k.R.Intn(5)]
	c.nodes = append(c.nodes, n)
	if !n.init() || !n.checkBlockTime(blockTime) {
		return nil
	}
	pv := privval.LoadFilePVEmptyState(n.file("config", "priv_validator_key.json"), n.file("data", "priv_validator_state.json"))
	pub, err := pv.GetPubKey()
	infra(err)
	n.val = pub.Bytes()
	nk, err := p2p.LoadNodeKey(n.file("config", "node_key.json"))
	infra(err)
	n.id = string(nk.ID())
	n.gen = n.read("config", "genesis.json")
	n.cl, err = rpchttp.New(fmt.Sprintf("tcp://127.0.0.1:%d", 26657+2*n.index), "/websocket")
	infra(err)
	return n
}

var timeoutCommit = regexp.MustCompile(`(?m)^timeout_commit\s*=\s*"(.*)"`)

// checkBlockTime: the new node starts blocks at the pace that init was told.
func (n *chainNode) checkBlockTime(secs string) bool {
	want, err := time.ParseDuration(secs + "s")
	infra(err)
	m := timeoutCommit.FindSubmatch(n.read("config", "config.toml"))
	if m == nil {
		return n.k.Check(false, "blocktime", "init with --blocktime %s writes a config without timeout_commit", secs)
	}
	got, err := time.ParseDuration(string(m[1]))
	d := got - want
	return n.k.Check(err == nil && d < want/100 && -d < want/100, "blocktime", "init with --blocktime %s writes a config with timeout_commit = %s", secs, m[1])
}

func (n *chainNode) p2pAddr() string {
	return fmt.Sprintf("%s@127.0.0.1:%d", n.id, 26656+2*n.index)
}

// checkGenesis: init describes a chain with the given keypers that the new node validates.
func (c *cluster) checkGenesis(n *chainNode, keypers []common.Address) bool {
	doc, err := tmtypes.GenesisDocFromJSON(n.gen)
	if !c.k.Check(err == nil, "genesis", "init writes a genesis file that can't be read: %v", err) {
		return false
	}
	ok := len(doc.Validators) == 1 && doc.Validators[0].Power > 0 && bytes.Equal(doc.Validators[0].PubKey.Bytes(), n.val)
	if !c.k.Check(ok, "genesis", "the new node %x is not the validator of its chain: %v", n.val, doc.Validators) {
		return false
	}
	if !c.k.Check(!chainIDs[doc.ChainID] && doc.ChainID != "", "genesis", "init uses the chain id %q again", doc.ChainID) {
		return false
	}
	chainIDs[doc.ChainID] = true
	var st struct {
		Keypers   []common.Address `json:"keypers"`
		Threshold string           `json:"threshold"`
	}
	err = json.Unmarshal(doc.AppState, &st)
	want := (2*len(keypers) + 2) / 3
	ok = err == nil && addrList(st.Keypers) == addrList(keypers) && st.Threshold == fmt.Sprint(want)
	return c.k.Check(ok, "genesis", "init with the keypers %s writes the application state %s (expected threshold %d) %v", addrList(keypers), doc.AppState, want, err)
}

var chainIDs = map[string]bool{}
var chainIDMux sync.Mutex

// follow reads new blocks from some node and compares them to the model.
func (c *cluster) follow(margin int64) bool {
	var best *chainNode
	var top int64
	for _, n := range c.nodes {
		if !n.watch() {
			return false
		}
	}
	for _, i := range c.k.R.Perm(len(c.nodes)) {
		if h := c.nodes[i].height(); h > top {
			best, top = c.nodes[i], h
		}
	}
	if best == nil {
		return true
	}
	for h := c.fed + 1; h <= top-margin; h++ {
		b, err := best.block(h)
		if err != nil {
			return true
		}
		if !c.feed(best, b) {
			return false
		}
	}
	return true
}

func copyVals(m map[string]int64) map[string]int64 {
	r := map[string]int64{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (c *cluster) feed(n *chainNode, b *chainBlock) bool {
	k := c.k
	txs, ups := b.results()
	if !k.Check(len(txs) == len(b.txs), "results", "%s has %d results for %d transactions of block %d", n.name, len(txs), len(b.txs), b.h) {
		return false
	}
	for i, t := range b.txs {
		o := c.m.deliver(t)
		c.txs++
		k.Count("transactions in blocks")
		k.Seen("outcomes", o.cat+": "+o.why)
		c.done[string(t)] = true
		k.Tracef("block %d of %s: %s -> accepted=%v %v", b.h, n.name, o.why, txs[i].ok, txs[i].events)
		if !sameOutcome(o, txs[i]) {
			k.Failf("outcome:"+sanitize(o.why), "transaction %d of block %d of %s: %s", i, b.h, n.name, describe(o, txs[i]))
			return false
		}
		if o.ok {
			c.acc++
			k.Count("accepted transactions")
		}
	}
	mu := c.m.endBlock(b.h)
	c.m.commit()
	sort.Slice(ups, func(i, j int) bool { return ups[i].key < ups[j].key })
	if !upEqual(mu, ups) {
		k.Failf("validators", "block %d of %s: expected validator updates [%s], got [%s]", b.h, n.name, upString(mu), upString(ups))
		return false
	}
	if len(ups) > 0 {
		k.Count("validator changes")
		k.Tracef("block %d: validators [%s]", b.h, upString(ups))
	}
	if c.dev {
		c.vals[b.h+2] = c.vals[b.h+1]
	} else {
		c.vals[b.h+2] = copyVals(c.m.validators)
	}
	c.seen[b.h] = b.String()
	c.fed = b.h
	k.Count("blocks")
	return true
}

// submit gives a transaction to a random node.
func (c *cluster) submit(raw []byte) (accepted bool) {
	var up []*chainNode
	for _, n := range c.nodes {
		if n.running() && n.ready && !n.stopped {
			up = append(up, n)
		}
	}
	if len(up) == 0 {
		return false
	}
	n := up[c.k.R.Intn(len(up))]
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	r, err := n.cl.BroadcastTxSync(ctx, raw)
	c.k.Count("transactions sent")
	return err == nil && r.Code == 0
}

// waitFor polls until cond holds. Tendermint's gossip sometimes stands still after nodes were
// killed although they are connected; that's not the application's business as long as the
// application answers and the nodes go on after an orderly restart.
func (c *cluster) waitFor(what string, limit time.Duration, cond func() bool) bool {
	begin := time.Now()
	end := begin.Add(limit)
	best, moved := map[*chainNode]int64{}, map[*chainNode]time.Time{}
	for !cond() {
		if c.k.Failed() {
			return false
		}
		for _, n := range c.nodes {
			if h := n.height(); h != best[n] || moved[n].IsZero() {
				moved[n], best[n] = time.Now(), h
			}
			if time.Since(moved[n]) < 40*time.Second || n.revived >= 3 || !n.running() || n.stopped || !n.answers() {
				continue
			}
			n.revived++
			c.k.Count("restarts of nodes that stood still")
			c.k.Tracef("%s doesn't go on; restart", n.name)
			if !n.terminate(syscall.SIGTERM) {
				return false
			}
			n.start()
			moved[n], end = time.Now(), time.Now().Add(limit)
		}
		if time.Now().After(end) {
			if c.failures() && c.lostVotes(moved) {
				c.k.Count("chains that tendermint can't continue")
				c.k.Tracef("%s doesn't happen: votes are lost", what)
				return false
			}
			c.stuck(what, time.Since(begin))
			return false
		}
		time.Sleep(60 * time.Millisecond)
		if !c.follow(1) {
			return false
		}
	}
	return true
}

// answers: the application of the node answers.
func (n *chainNode) answers() bool {
	ctx, cancel := rpcCtx()
	defer cancel()
	_, err := n.cl.ABCIInfo(ctx)
	return err == nil
}

// lostVotes: no node goes on, all applications answer, and a validator can't vote: it was killed
// after it recorded that it signs a vote and before it recorded the vote. That's tendermint 0.34's
// limitation if all of the validators are needed.
func (c *cluster) lostVotes(moved map[*chainNode]time.Time) bool {
	found := false
	for _, n := range c.nodes {
		if time.Since(moved[n]) < 30*time.Second || !n.answers() {
			return false
		}
		b, _ := os.ReadFile(n.file("log"))
		if int64(len(b)) > n.logFrom {
			b = b[n.logFrom:]
			found = found || bytes.Contains(b, []byte("failed signing vote")) || bytes.Contains(b, []byte("failed signing proposal"))
		}
	}
	return found
}

func (c *cluster) stuck(what string, limit time.Duration) {
	l := []string{}
	for _, n := range c.nodes {
		l = append(l, fmt.Sprintf("%s at height %d (up for %v)", n.name, n.height(), time.Since(n.since)))
	}
	for _, n := range c.nodes {
		l = append(l, "log of "+n.name+":\n"+crashPart(n.logTail(400000)))
	}
	c.k.Failf("stuck", "%s doesn't happen within %v: %s", what, limit, strings.Join(l, "\n"))
}

// failures looks for signs of trouble in the logs.
func (c *cluster) failures() bool {
	for _, n := range c.nodes {
		b, _ := os.ReadFile(n.file("log"))
		for _, mark := range []string{"CONSENSUS FAILURE", "panic: ", "fatal error: "} {
			if i := bytes.LastIndex(b, []byte(mark)); i >= 0 {
				c.k.Failf("trouble", "%s reports trouble:\n%s", n.name, crashPart(string(b)))
				return false
			}
		}
	}
	return true
}

// chainCase: real nodes, faults, and everything they agreed on compared to the model.
func chainCase(k *vt.K) {
	c := &cluster{k: k, dev: k.Idx%5 < 2, seen: map[int64]string{}, vals: map[int64]map[string]int64{}, sent: map[string]bool{}, done: map[string]bool{}}
	defer c.close()
	var keypers []common.Address
	if c.dev {
		for _, i := range k.R.Perm(len(actors))[:1+k.R.Intn(6)] {
			keypers = append(keypers, actors[i].addr)
		}
	} else {
		for _, a := range actors { // so that all of them may check in
			keypers = append(keypers, a.addr)
		}
	}
	nNodes := []int{1, 1, 1, 2, 3, 4, 4, 4}[k.R.Intn(8)]
	for i := 0; i < nNodes; i++ {
		n := c.newNode(fmt.Sprintf("node%d", i), keypers)
		if n == nil {
			return
		}
		chainIDMux.Lock()
		ok := c.checkGenesis(n, keypers)
		chainIDMux.Unlock()
		if !ok {
			return
		}
	}
	// a chain with several validators
	first := c.nodes[0]
	doc, err := tmtypes.GenesisDocFromJSON(first.gen)
	infra(err)
	c.chain = doc.ChainID
	vals := map[string]int64{string(first.val): doc.Validators[0].Power}
	if nNodes > 1 {
		for _, n := range c.nodes[1:] {
			d, err := tmtypes.GenesisDocFromJSON(n.gen)
			infra(err)
			v := d.Validators[0]
			if k.R.Intn(3) == 0 {
				v.Power = int64(8 + k.R.Intn(6))
			}
			vals[string(n.val)] = v.Power
			doc.Validators = append(doc.Validators, v)
		}
	}
	infra(doc.SaveAs(first.file("config", "genesis.json")))
	gen := first.read("config", "genesis.json")
	var peers []string
	for _, n := range c.nodes {
		peers = append(peers, n.p2pAddr())
	}
	setup := func(n *chainNode) {
		n.gen = gen
		infra(os.WriteFile(n.file("config", "genesis.json"), gen, 0o644))
		n.connect(strings.Join(peers, ","))
	}
	for _, n := range c.nodes {
		setup(n)
	}
	c.m = newModel(c.chain, keypers, uint64(2*len(keypers)+2)/3, vals, c.dev)
	c.vals[1], c.vals[2] = copyVals(vals), copyVals(vals)
	k.Tracef("chain %s dev=%v nodes=%d keypers=%s", c.chain, c.dev, nNodes, addrList(keypers))
	for _, n := range c.nodes {
		n.start()
		n.back = time.Time{}
	}
	if !c.waitFor("the first blocks", 120*time.Second, func() bool {
		h := int64(0)
		for _, n := range c.nodes {
			if x := n.height(); x < 0 {
				return false
			} else if x > h {
				h = x
			}
		}
		return h > 2
	}) {
		return
	}
	if c.fed >= 1 {
		ctx, cancel := rpcCtx()
		one := int64(1)
		v, err := first.cl.Validators(ctx, &one, nil, nil)
		cancel()
		if err == nil && !k.Check(sameVals(v, vals), "validators", "the chain starts with the validators %v, not with those of the genesis file", v.Validators) {
			return
		}
	}
	g := newGen(k.R, c.m, []string{catAuth, catConfig, catStart, catDKG}[k.R.Intn(4)])
	if !c.dev {
		// everybody checks in with the key of one of the nodes
		shift := k.R.Intn(nNodes)
		for i, a := range actors {
			msg := &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{ValidatorPublicKey: c.nodes[(i+shift)%nNodes].val, EncryptionPublicKey: a.enc}}}
			g.nonce++
			t := g.sign(a, msg, g.nonce)
			if !c.waitFor("a check-in", 60*time.Second, func() bool {
				return c.submit(t.raw) || c.done[string(t.raw)]
			}) {
				return
			}
		}
		if !c.waitFor("check-ins in blocks", 90*time.Second, func() bool { return len(c.m.identities) == len(actors) }) {
			return
		}
	}
	// the storm
	length := time.Duration(16+k.R.Intn(8)) * time.Second
	if k.C.Thorough() {
		length *= 4
	}
	faults := 0
	var late *chainNode
	lateAt := length
	if k.R.Intn(2) == 0 {
		lateAt = time.Duration(float64(length) * k.R.Float64())
	}
	begin := time.Now()
	for time.Since(begin) < length {
		if !c.dev && k.R.Intn(5) == 0 {
			// votes of all keypers, so that the validators do change
			var msg *shmsg.Message
			var voters []common.Address
			if last := c.m.last(); len(c.m.configs) > 1 && !last.started {
				msg, voters = shmsg.NewBatchConfigStarted(last.index), c.m.configs[len(c.m.configs)-2].keypers
			} else {
				if g.camp == nil || g.camp.ConfigIndex <= last.index {
					g.newCampaign()
				}
				msg, voters = &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: g.camp}}, last.keypers
			}
			for _, v := range voters {
				for _, a := range actors {
					if a.addr == v {
						g.nonce++
						c.submit(g.sign(a, msg, g.nonce).raw)
					}
				}
			}
		}
		for i := k.R.Intn(7); i > 0; i-- {
			t := g.next()
			if c.submit(t.raw) {
				c.sent[string(t.raw)] = true
				k.Count("transactions admitted")
			}
		}
		if !c.follow(1) {
			return
		}
		if late == nil && lateAt < length && time.Since(begin) > lateAt {
			late = c.newNode("late", keypers)
			if late == nil {
				return
			}
			setup(late)
			late.start()
			k.Count("nodes that join later")
		}
		for _, n := range c.nodes {
			switch {
			case n.stopped && time.Now().After(n.back):
				_ = n.cmd.Process.Signal(syscall.SIGCONT)
				n.stopped = false
				k.Tracef("%s goes on", n.name)
			case n.trapped() || !n.running() && time.Now().After(n.back):
				n.run(k.R.Intn(3) > 0)
				if n.trap != "" {
					k.Count("runs with a trap")
					faults++
				}
			}
		}
		if k.R.Intn(16+8*nNodes) == 0 {
			n := c.nodes[k.R.Intn(len(c.nodes))]
			all := k.R.Intn(6) == 0
			switch {
			case !n.running() || n.stopped:
			case all:
				for _, n := range c.nodes {
					if n.stopped {
						_ = n.cmd.Process.Signal(syscall.SIGCONT)
						n.stopped = false
					}
					n.kill()
					n.back = time.Now()
				}
				faults++
				k.Count("kills of all nodes at once")
			case k.R.Intn(4) == 0:
				_ = n.cmd.Process.Signal(syscall.SIGSTOP)
				n.stopped = true
				n.back = time.Now().Add(time.Duration(k.R.Intn(2500)) * time.Millisecond)
				k.Tracef("%s pauses", n.name)
				faults++
				k.Count("pauses")
			case n.ready && k.R.Intn(3) == 0:
				if !n.terminate([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[k.R.Intn(2)]) {
					return
				}
				faults++
				n.back = time.Now().Add(time.Duration(k.R.Intn(2500)) * time.Millisecond)
				if k.R.Intn(3) == 0 && !c.again(n) {
					return
				}
			default:
				n.kill()
				faults++
				k.Count("kills")
				n.back = time.Now().Add(time.Duration(k.R.Intn(2500)) * time.Millisecond)
			}
		}
		time.Sleep(time.Duration(20+k.R.Intn(80)) * time.Millisecond)
	}
	for _, n := range c.nodes {
		if n.stopped {
			_ = n.cmd.Process.Signal(syscall.SIGCONT)
			n.stopped = false
		}
		if !n.running() {
			n.start()
		}
	}
	// all of them restart once more, so that the state each of them loads is used
	if !c.settle("the nodes go on after the faults") {
		return
	}
	for _, n := range c.nodes {
		if k.R.Intn(2) == 0 {
			n.kill()
		} else if !n.terminate(syscall.SIGTERM) {
			return
		}
		n.start()
	}
	if !c.waitFor("the nodes are back", 120*time.Second, func() bool {
		for _, n := range c.nodes {
			if n.height() < 0 {
				return false
			}
		}
		return true
	}) {
		return
	}
	for i := 0; i < 60; i++ {
		if t := g.next(); c.submit(t.raw) {
			c.sent[string(t.raw)] = true
		}
		if i%10 == 0 {
			time.Sleep(40 * time.Millisecond)
			if !c.follow(1) {
				return
			}
		}
	}
	if !c.settle("the nodes go on after the last restart") || !c.failures() {
		return
	}
	if !c.compare() {
		return
	}
	k.Count("chains completed")
	if faults > 0 {
		k.Count("chains with faults")
	}
	k.Eval(fmt.Sprintf("%s/%d/%d/%d", c.chain, c.fed, c.txs, faults), c.acc > 0 && faults > 0)
	k.Sample(map[string]interface{}{"nodes": len(c.nodes), "dev": c.dev, "blocks": c.fed, "transactions": c.txs, "accepted": c.acc, "faults": faults, "configs": len(c.m.configs), "eons": c.m.eon})
}

// again runs init on the directory of a node that exists; neither keys nor genesis may change.
func (c *cluster) again(n *chainNode) bool {
	files := []string{"config/genesis.json", "config/priv_validator_key.json", "config/node_key.json", "data/priv_validator_state.json"}
	before := map[string]string{}
	for _, f := range files {
		before[f] = string(n.read(f))
	}
	if !n.init() {
		return false
	}
	for _, f := range files {
		if !c.k.Check(string(n.read(f)) == before[f], "init-overwrites", "init run again changes %s of a node", f) {
			return false
		}
	}
	n.connect(n.peers)
	c.k.Tracef("init again for %s", n.name)
	c.k.Count("init runs on existing nodes")
	return true
}

// settle waits until all nodes have blocks beyond what any of them has now.
func (c *cluster) settle(what string) bool {
	var top int64
	for _, n := range c.nodes {
		if h := n.height(); h > top {
			top = h
		}
	}
	return c.waitFor(what, 150*time.Second, func() bool {
		for _, n := range c.nodes {
			if n.height() < top+3 {
				return false
			}
		}
		return c.fed >= top+2
	})
}

func sameVals(v *ctypes.ResultValidators, want map[string]int64) bool {
	if v.Total != len(want) {
		return false
	}
	for _, x := range v.Validators {
		if want[string(x.PubKey.Bytes())] != x.VotingPower {
			return false
		}
	}
	return true
}

// compare: every node reports the same about every block.
func (c *cluster) compare() bool {
	top := c.fed
	if !c.waitFor("all nodes have the last block", 120*time.Second, func() bool {
		for _, n := range c.nodes {
			if n.height() < top+1 {
				return false
			}
		}
		return true
	}) {
		return false
	}
	for _, n := range c.nodes {
		for h := int64(1); h <= top; h++ {
			b, err := n.block(h)
			if err != nil {
				// results of blocks that a node only replayed are not kept
				if strings.Contains(err.Error(), "could not find results") {
					c.k.Count("blocks without results")
					continue
				}
				c.k.Failf("lost", "%s doesn't know block %d of %d: %v", n.name, h, top, err)
				return false
			}
			if got := b.String(); got != c.seen[h] {
				c.k.Failf("nodes-differ", "%s reports another block %d:\n%s\ninstead of\n%s", n.name, h, got, c.seen[h])
				return false
			}
			c.k.Count("block comparisons")
		}
		for try := 0; try < 4; try++ {
			h := 1 + c.k.R.Int63n(c.fed)
			want, ok := c.vals[h]
			if !ok {
				continue
			}
			ctx, cancel := rpcCtx()
			hundred := 100
			v, err := n.cl.Validators(ctx, &h, nil, &hundred)
			cancel()
			if err != nil {
				continue
			}
			if !c.k.Check(sameVals(v, want), "validators", "%s: block %d is decided by %v", n.name, h, v.Validators) {
				return false
			}
			c.k.Count("validator sets compared")
		}
	}
	return true
}

func checkC31(c *vt.C) {
	c.Cases("chain", c.N(16, 64), 8, chainCase)
	c.Require("accepted transactions", 300)
	c.Require("blocks", 400)
	c.Require("kills", 5)
	c.Require("chains completed", int64(c.N(8, 40)))
	if canTrace() {
		c.Require("kills at chosen points", 5)
	}
	c.Require("orderly stops", 5)
	c.Require("validator changes", 10)
}
