package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// cmdResult is what a run of the program did.
type cmdResult struct {
	args   []string
	code   int
	out    string
	stderr string
	sent   []*types.Transaction // transactions that arrived at the node while it ran
}

func (r cmdResult) String() string {
	return fmt.Sprintf("exit status %d of %q\nstdout: %s\nstderr: %s", r.code, r.args, tail(r.out, 1500), tail(r.stderr, 2500))
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// shuttermint runs the program.
func shuttermint(k *vt.K, dir string, env []string, args ...string) cmdResult {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_SHUTTERMINT"), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=all"}, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	r := cmdResult{args: args, out: out.String(), stderr: errb.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			must(err)
		}
		r.code = ee.ExitCode()
	}
	if ctx.Err() != nil {
		k.Failf("hang", "the command doesn't end within 100 seconds: %v", r)
	}
	if strings.Contains(r.stderr, "panic: ") || strings.Contains(r.stderr, "goroutine ") && strings.Contains(r.stderr, "fatal error: ") {
		k.Failf("crash", "the command crashes: %v", r)
	}
	k.Count("commands run")
	return r
}

// chainCLI is a simulated chain that mines on its own, and the program to use with it.
type chainCLI struct {
	k    *vt.K
	e    *ethSim
	node *ethNode
	cl   *ethclient.Client
	dir  string

	mux    sync.Mutex
	lazy   int    // empty blocks before the next transactions are mined
	before func() // called once, before the next transactions are mined
	hold   bool
	stop   chan struct{}
	done   chan struct{}
}

func newChainCLI(k *vt.K, e *ethSim) *chainCLI {
	c := &chainCLI{k: k, e: e, node: newEthNode(e), cl: e.client(), dir: filepath.Join(k.C.Scratch, fmt.Sprintf("%s-%d", k.Name, k.Idx)), stop: make(chan struct{}), done: make(chan struct{})}
	must(os.MkdirAll(c.dir, 0o755))
	go func() {
		defer close(c.done)
		for {
			select {
			case <-c.stop:
				return
			case <-time.After(3 * time.Millisecond):
			}
			c.mux.Lock()
			if !c.hold && e.poolSize() > 0 {
				for ; c.lazy > 0; c.lazy-- {
					e.mine(func(int, *types.Transaction) bool { return false })
				}
				if c.before != nil {
					c.before()
					c.before = nil
				}
				e.mine(nil)
			}
			c.mux.Unlock()
		}
	}()
	return c
}

func (c *chainCLI) close() {
	close(c.stop)
	<-c.done
	c.node.close()
	c.e.close()
	os.RemoveAll(c.dir)
}

func (c *chainCLI) url() string { return "ws://" + c.node.addr() }

// mineAll mines what's in the pool now.
func (c *chainCLI) mineAll() {
	c.mux.Lock()
	defer c.mux.Unlock()
	c.e.mine(nil)
}

func (c *chainCLI) run(env []string, args ...string) cmdResult {
	c.e.mux.Lock()
	n := len(c.e.sent)
	c.e.mux.Unlock()
	r := shuttermint(c.k, c.dir, env, args...)
	c.e.mux.Lock()
	for _, s := range c.e.sent[n:] {
		r.sent = append(r.sent, s.tx)
	}
	c.e.mux.Unlock()
	var b strings.Builder
	for _, a := range args {
		if len(a) == 64 {
			a = "KEY"
		}
		b.WriteString(" " + strings.ReplaceAll(a, c.dir, "DIR"))
	}
	c.k.Tracef("block %d: shuttermint%s -> %d, %d transactions", c.e.head(), b.String(), r.code, len(r.sent))
	return r
}

func (c *chainCLI) write(name string, b []byte) string {
	p := filepath.Join(c.dir, name)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, b, 0o644))
	return p
}

func (c *chainCLI) auth(k *ecdsa.PrivateKey) *bind.TransactOpts {
	a, err := bind.NewKeyedTransactorWithChainID(k, c.e.cfg.ChainID)
	must(err)
	c.e.mux.Lock()
	a.Nonce = new(big.Int).SetUint64(c.e.pendingNonce(addrOf(k)))
	c.e.mux.Unlock()
	a.GasLimit = 4_000_000
	a.GasPrice = big.NewInt(1)
	return a
}

func hexBytes(b []byte) hexutil.Bytes { return b }

func keyHex(k *ecdsa.PrivateKey) string { return hex.EncodeToString(crypto.FromECDSA(k)) }

func randAddr(r *rand.Rand) (a common.Address) {
	r.Read(a[:])
	return
}

// ---- C29: the config commands

// rawConfig is a config as the contract has it (with all keypers), read by reference code.
type rawConfig struct{ contract.BatchConfig }

func (a rawConfig) equal(b rawConfig) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func (a rawConfig) String() string {
	c := a.BatchConfig
	var ks []string
	for _, k := range c.Keypers {
		ks = append(ks, k.Hex())
	}
	return fmt.Sprintf("{batch %d block %d keypers %v threshold %d span %d sizes %d %d gas %d receiver %s target %s %x timeout %d}", c.StartBatchIndex, c.StartBlockNumber, ks,
		c.Threshold, c.BatchSpan, c.BatchSizeLimit, c.TransactionSizeLimit, c.TransactionGasLimit, c.FeeReceiver.Hex(), c.TargetAddress.Hex(), c.TargetFunctionSelector, c.ExecutionTimeout)
}

// dedup leaves every keyper once, as the program shows configs.
func (a rawConfig) dedup() rawConfig {
	r := a
	r.Keypers = nil
	seen := map[common.Address]bool{}
	for _, x := range a.Keypers {
		if !seen[x] {
			seen[x] = true
			r.Keypers = append(r.Keypers, x)
		}
	}
	return r
}

func clampU64(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return uint64(r.Intn(3))
	case 2:
		return r.Uint64()
	case 3:
		return ^uint64(0)
	case 4:
		return 1<<53 + uint64(r.Intn(5))
	}
	return uint64(r.Intn(100000))
}

type configWorld struct {
	*chainCLI
	owner, other *ecdsa.PrivateKey
	addr         common.Address
	cc           *contract.ConfigContract
	headsUp      uint64
	contracts    string
	keypers      []common.Address // to choose from
}

func newConfigWorld(k *vt.K) *configWorld {
	r := k.R
	w := &configWorld{owner: keyOf("owner"), other: keyOf("other"), headsUp: []uint64{0, 2, 20, 50}[r.Intn(4)]}
	w.chainCLI = newChainCLI(k, newEthSim([]common.Address{addrOf(w.owner), addrOf(w.other)}))
	w.e.gasPrice = int64(1 + r.Intn(50))
	w.mux.Lock()
	var err error
	w.addr, _, w.cc, err = contract.DeployConfigContract(w.auth(w.owner), w.cl, w.headsUp)
	must(err)
	w.mux.Unlock()
	w.mineAll()
	m := map[string]string{"ConfigContract": w.addr.Hex()}
	for _, n := range []string{"KeyBroadcastContract", "FeeBankContract", "BatcherContract", "ExecutorContract", "TokenContract", "DepositContract", "KeyperSlasherContract", "TargetProxyContract", "TargetContract"} {
		m[n] = randAddr(r).Hex()
	}
	b, err := json.Marshal(m)
	must(err)
	w.contracts = w.write("contracts.json", b)
	for i := 0; i < 8; i++ {
		w.keypers = append(w.keypers, randAddr(r))
	}
	return w
}

// state reads all configs and the next one directly.
func (w *configWorld) state() (all []rawConfig, next rawConfig) {
	w.mux.Lock()
	defer w.mux.Unlock()
	n, err := w.cc.NumConfigs(nil)
	must(err)
	for i := uint64(0); i < n; i++ {
		c, err := w.cc.ConfigForConfigIndex(nil, i)
		must(err)
		all = append(all, rawConfig{c})
	}
	c, err := w.cc.NextConfig(nil)
	must(err)
	return all, rawConfig{c}
}

func (w *configWorld) randKeypers(dups bool) (ks []common.Address) {
	r := w.k.R
	n := 1 + r.Intn(6)
	for _, i := range r.Perm(len(w.keypers))[:n] {
		ks = append(ks, w.keypers[i])
	}
	if dups {
		for i := 1 + r.Intn(3); i > 0; i-- {
			p := r.Intn(len(ks) + 1)
			ks = append(ks[:p:p], append([]common.Address{ks[r.Intn(len(ks))]}, ks[p:]...)...)
		}
	}
	return
}

func (w *configWorld) randConfig() rawConfig {
	r := w.k.R
	c := contract.BatchConfig{StartBatchIndex: clampU64(r), StartBlockNumber: clampU64(r), BatchSpan: clampU64(r), BatchSizeLimit: clampU64(r), TransactionSizeLimit: clampU64(r),
		TransactionGasLimit: clampU64(r), FeeReceiver: randAddr(r), TargetAddress: randAddr(r), ExecutionTimeout: clampU64(r), Keypers: w.randKeypers(false)}
	r.Read(c.TargetFunctionSelector[:])
	if r.Intn(4) == 0 {
		c.FeeReceiver = common.Address{}
	}
	c.Threshold = 1 + uint64(r.Intn(len(c.Keypers)))
	if c.StartBlockNumber == 0 {
		c.StartBlockNumber = 1
	}
	return rawConfig{c}
}

// direct makes c the contract's next config.
func (w *configWorld) direct(c rawConfig, schedule bool) {
	w.mux.Lock()
	defer w.mux.Unlock()
	cc := w.cc
	send := func(f func(a *bind.TransactOpts) (*types.Transaction, error)) {
		_, err := f(w.auth(w.owner))
		must(err)
	}
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetStartBatchIndex(a, c.StartBatchIndex)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetStartBlockNumber(a, c.StartBlockNumber)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetThreshold(a, c.Threshold)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetBatchSpan(a, c.BatchSpan)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetBatchSizeLimit(a, c.BatchSizeLimit)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTransactionSizeLimit(a, c.TransactionSizeLimit)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTransactionGasLimit(a, c.TransactionGasLimit)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetFeeReceiver(a, c.FeeReceiver)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTargetAddress(a, c.TargetAddress)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTargetFunctionSelector(a, c.TargetFunctionSelector)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetExecutionTimeout(a, c.ExecutionTimeout)
	})
	send(func(a *bind.TransactOpts) (*types.Transaction, error) { return cc.NextConfigRemoveKeypers(a, 1000) })
	send(func(a *bind.TransactOpts) (*types.Transaction, error) { return cc.NextConfigAddKeypers(a, c.Keypers) })
	if schedule {
		send(func(a *bind.TransactOpts) (*types.Transaction, error) { return cc.ScheduleNextConfig(a) })
	}
	for _, rc := range w.e.mine(nil).receipts {
		if rc.Status != types.ReceiptStatusSuccessful {
			panic(vt.InfraError("the preparation of the config contract fails"))
		}
	}
}

// follow makes the config fit behind the last one, ahead blocks later than the earliest possible start.
func (w *configWorld) follow(c *rawConfig, ahead uint64) {
	all, _ := w.state()
	last := all[len(all)-1]
	hu := w.headsUp
	if last.BatchSpan > hu {
		hu = last.BatchSpan
	}
	start := w.e.head() + 2 + hu + ahead
	if start < last.StartBlockNumber {
		start = last.StartBlockNumber
	}
	c.StartBlockNumber, c.StartBatchIndex = start, last.StartBatchIndex
	if last.BatchSpan > 0 {
		n := (start-last.StartBlockNumber)/last.BatchSpan + 1
		c.StartBlockNumber, c.StartBatchIndex = last.StartBlockNumber+n*last.BatchSpan, last.StartBatchIndex+n
	}
}

// jsonConfig writes a config as operators do.
func jsonConfig(r *rand.Rand, c rawConfig, auto bool) map[string]interface{} {
	ks := []string{}
	for _, k := range c.Keypers {
		ks = append(ks, k.Hex())
	}
	m := map[string]interface{}{"StartBatchIndex": c.StartBatchIndex, "StartBlockNumber": c.StartBlockNumber, "Keypers": ks, "Threshold": c.Threshold, "BatchSpan": c.BatchSpan,
		"BatchSizeLimit": c.BatchSizeLimit, "TransactionSizeLimit": c.TransactionSizeLimit, "TransactionGasLimit": c.TransactionGasLimit, "FeeReceiver": c.FeeReceiver.Hex(),
		"TargetAddress": c.TargetAddress.Hex(), "TargetFunctionSelector": fmt.Sprintf("0x%x", c.TargetFunctionSelector), "ExecutionTimeout": c.ExecutionTimeout}
	if auto {
		m["StartBlockNumber"], m["StartBatchIndex"] = uint64(0), uint64(0)
		if r.Intn(2) == 0 {
			delete(m, "StartBlockNumber")
			delete(m, "StartBatchIndex")
		}
	}
	return m
}

// spoil makes a config file invalid.
func spoil(r *rand.Rand, m map[string]interface{}) (what string, b []byte) {
	ks := m["Keypers"].([]string)
	badAddr := func(a string) string {
		switch r.Intn(5) {
		case 0:
			return a[:41]
		case 1:
			return a[2:]
		case 2:
			return a + "00"
		case 3:
			return ""
		}
		for i := 2; i < len(a); i++ {
			c := a[i]
			if c >= 'a' && c <= 'f' {
				return a[:i] + strings.ToUpper(a[i:i+1]) + a[i+1:]
			}
			if c >= 'A' && c <= 'F' {
				return a[:i] + strings.ToLower(a[i:i+1]) + a[i+1:]
			}
		}
		return a[:41]
	}
	switch r.Intn(10) {
	case 0:
		what, m["Threshold"] = "no threshold", 0
	case 1:
		what, m["Threshold"] = "threshold too high", len(ks)+1+r.Intn(3)
	case 2:
		what, m["Keypers"] = "no keypers", []string{}
	case 3:
		what = "bad keyper address"
		ks = append([]string{}, ks...)
		i := r.Intn(len(ks))
		ks[i] = badAddr(ks[i])
		m["Keypers"] = ks
	case 4:
		what, m["FeeReceiver"] = "bad fee receiver", badAddr("0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed")
	case 5:
		what, m["TargetAddress"] = "bad target", badAddr("0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed")
	case 6:
		what, m["TargetFunctionSelector"] = "bad selector", []string{"0x123456", "0x1234567890", "12345678", "", "0x1234567g"}[r.Intn(5)]
	case 7:
		what, m["BatchSpan"] = "bad number", []interface{}{-1, "1", 1.5, "x"}[r.Intn(4)]
	case 8:
		b, err := json.Marshal(m)
		must(err)
		return "cut off", b[:r.Intn(len(b))]
	case 9:
		what = "threshold missing"
		delete(m, "Threshold")
	}
	b, err := json.Marshal(m)
	must(err)
	return what, b
}

// parsed reads the JSON the program prints, without its own code.
func parsed(k *vt.K, m map[string]interface{}) (c rawConfig, ok bool) {
	ok = true
	num := func(n string) uint64 {
		v, is := m[n].(json.Number)
		x, err := strconv.ParseUint(string(v), 10, 64)
		if !is || err != nil {
			ok = k.Check(false, "bad-json", "%s isn't a number: %v", n, m[n])
		}
		return x
	}
	adr := func(n string, v interface{}) common.Address {
		s, _ := v.(string)
		a := common.HexToAddress(s)
		if a.Hex() != s {
			ok = k.Check(false, "bad-json", "%s isn't a checksummed address: %v", n, v)
		}
		return a
	}
	c.StartBatchIndex, c.StartBlockNumber, c.Threshold, c.BatchSpan = num("StartBatchIndex"), num("StartBlockNumber"), num("Threshold"), num("BatchSpan")
	c.BatchSizeLimit, c.TransactionSizeLimit, c.TransactionGasLimit, c.ExecutionTimeout = num("BatchSizeLimit"), num("TransactionSizeLimit"), num("TransactionGasLimit"), num("ExecutionTimeout")
	c.FeeReceiver, c.TargetAddress = adr("FeeReceiver", m["FeeReceiver"]), adr("TargetAddress", m["TargetAddress"])
	ks, is := m["Keypers"].([]interface{})
	if !is {
		ok = k.Check(false, "bad-json", "Keypers isn't a list: %v", m["Keypers"])
	}
	for _, x := range ks {
		c.Keypers = append(c.Keypers, adr("a keyper", x))
	}
	s, _ := m["TargetFunctionSelector"].(string)
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil || len(b) != 4 || !strings.HasPrefix(s, "0x") {
		ok = k.Check(false, "bad-json", "TargetFunctionSelector isn't one: %v", m["TargetFunctionSelector"])
	}
	copy(c.TargetFunctionSelector[:], b)
	if len(m) != 12 {
		ok = k.Check(false, "bad-json", "%d fields", len(m))
	}
	return
}

func decodeJSON(s string, v interface{}) error {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		return err
	}
	if d.More() {
		return fmt.Errorf("more than one value")
	}
	return nil
}

func (w *configWorld) flags(key *ecdsa.PrivateKey, env *[]string, a ...string) []string {
	r := w.k.R
	opt := func(long, short, name, v string) {
		switch r.Intn(6) {
		case 0:
			a = append(a, short, v)
		case 1:
			*env = append(*env, "SHUTTER_"+name+"="+v)
		case 2:
			*env = append(*env, "SHUTTER_"+name+"=garbage", "SHUTTER_"+strings.ToUpper(strings.ReplaceAll(a[1], "-", "_"))+"_"+name+"="+v)
		case 3:
			// the flag has precedence
			*env = append(*env, "SHUTTER_"+name+"=garbage")
			a = append(a, long+"="+v)
		default:
			a = append(a, long, v)
		}
	}
	opt("--contracts", "-c", "CONTRACTS", w.contracts)
	opt("--ethereum-url", "-e", "ETHEREUM_URL", w.url())
	if key != nil {
		h := keyHex(key)
		if r.Intn(2) == 0 {
			h = "0x" + h
		}
		opt("--owner-key", "-k", "OWNER_KEY", h)
	}
	return a
}

// price adds a gas price sometimes, and returns the one to be used.
func (w *configWorld) price(a []string) ([]string, *big.Int) {
	if w.k.R.Intn(2) == 0 {
		p := w.k.R.Int63n(200)
		if p == 0 {
			return append(a, "--gas-price", "0"), new(big.Int)
		}
		return append(a, "--gas-price", fmt.Sprint(p)), new(big.Int).Mul(big.NewInt(p), big.NewInt(1_000_000_000))
	}
	return a, big.NewInt(w.e.gasPrice)
}

// txs checks the transactions a command sent.
func (w *configWorld) txs(r cmdResult, price *big.Int, n0 uint64) {
	k := w.k
	for i, tx := range r.sent {
		from, err := types.Sender(w.e.signer(), tx)
		must(err)
		k.Check(from == addrOf(w.owner), "wrong-sender", "a transaction is sent by %s", from.Hex())
		k.Check(tx.GasPrice().Cmp(price) == 0, "gas-price", "a transaction has gas price %s, not %s: %v", tx.GasPrice(), price, r)
		k.Check(tx.Nonce() == n0+uint64(i), "nonce", "transaction %d has nonce %d, the first free one is %d", i, tx.Nonce(), n0)
		k.Check(tx.To() != nil && *tx.To() == w.addr, "wrong-contract", "a transaction is sent to %v", tx.To())
		w.e.mux.Lock()
		b, _ := w.e.find(tx.Hash())
		w.e.mux.Unlock()
		k.Check(b != nil || r.code != 0, "not-waited", "the command ends with success before its transaction %d is mined", i)
	}
	k.C.Count("transactions sent", int64(len(r.sent)))
}

func (w *configWorld) nonce() uint64 {
	w.e.mux.Lock()
	defer w.e.mux.Unlock()
	return w.e.pendingNonce(addrOf(w.owner))
}

func sameConfigs(a, b []rawConfig) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].equal(b[i]) {
			return false
		}
	}
	return true
}

func checkC29(c *vt.C) {
	if os.Getenv("VERIF_SHUTTERMINT") == "" {
		panic(vt.InfraError("the program isn't there"))
	}
	c.Cases("config", c.N(160, 3000), 0, configCase)
	for _, n := range []string{"set-next: done", "set-next: auto start", "set-next: invalid file", "set-next: not the owner", "schedule: done", "schedule: refused", "schedule --config: done",
		"schedule: reverts when mined", "set-next: some transactions revert", "query: next", "query: last", "query: all", "query: one", "query: no such config", "list", "duplicates replaced", "last config in the future", "long batches before"} {
		c.Require(n, 1)
	}
}

func configCase(k *vt.K) {
	r := k.R
	w := newConfigWorld(k)
	defer w.close()
	for i := r.Intn(20); i > 0; i-- {
		w.mineAll()
	}
	// some history
	spans := []uint64{0, 1, 2, 3, 10, 10, 60, 150}
	for i := r.Intn(4); i > 0; i-- {
		c := w.randConfig()
		c.BatchSpan = spans[r.Intn(len(spans))]
		if r.Intn(3) == 0 {
			c.Keypers = w.randKeypers(true)
			c.Threshold = 1 + uint64(r.Intn(len(c.Keypers)))
		}
		ahead := uint64(r.Intn(30))
		if i == 1 && r.Intn(3) == 0 {
			ahead = uint64(100 + r.Intn(400))
		}
		w.follow(&c, ahead)
		w.direct(c, true)
		for j := r.Intn(100); j > 0; j-- {
			w.mineAll()
		}
	}
	if r.Intn(3) > 0 {
		c := w.randConfig()
		if r.Intn(2) == 0 {
			c.Keypers = w.randKeypers(true)
		}
		w.direct(c, false)
	}
	var key strings.Builder
	for i := 4 + r.Intn(4); i > 0 && !k.Failed(); i-- {
		fmt.Fprintf(&key, "%s ", w.step())
	}
	all, next := w.state()
	k.Eval(fmt.Sprint(all, next), len(all) > 1 || len(next.Keypers) > 0)
	k.Sample(map[string]interface{}{"headsUp": w.headsUp, "steps": key.String(), "configs": len(all)})
}

func (w *configWorld) step() string {
	k, r := w.k, w.k.R
	all, next := w.state()
	last := all[len(all)-1]
	cost := func() uint64 { return w.nonce() }
	final := last.BatchSpan > 1<<40 // no config can follow
	unchanged := func(what string, res cmdResult, sent int) {
		all2, next2 := w.state()
		k.Check(sameConfigs(all, all2) && next.equal(next2), "changed", "%s changes the contract: %v %v -> %v %v: %v", what, all, next, all2, next2, res)
		if sent >= 0 {
			k.Check(len(res.sent) == sent, "sent", "%s sends %d transactions: %v", what, len(res.sent), res)
		}
	}
	var env []string
	// the sender may have transactions in the pool already
	pend := func() {
		if r.Intn(4) == 0 {
			w.mux.Lock()
			for j := 1 + r.Intn(2); j > 0; j-- {
				a := w.auth(w.owner)
				tx, err := types.SignTx(types.NewTransaction(a.Nonce.Uint64(), addrOf(w.other), big.NewInt(1), 21000, big.NewInt(1), nil), w.e.signer(), w.owner)
				must(err)
				must(w.cl.SendTransaction(context.Background(), tx))
			}
			w.mux.Unlock()
		}
	}
	holding := func(f func()) {
		w.mux.Lock()
		w.hold = true
		w.mux.Unlock()
		f()
	}
	release := func() {
		w.mux.Lock()
		w.hold = false
		w.mux.Unlock()
	}
	newConfig := func() rawConfig {
		c := w.randConfig()
		switch r.Intn(4) {
		case 0: // only a few fields change
			d := next
			if d.Threshold > 0 && int(d.Threshold) <= len(d.Keypers) {
				if d.StartBlockNumber == 0 {
					d.StartBlockNumber = 7
				}
				switch r.Intn(6) {
				case 0:
					d.Keypers = c.Keypers
					d.Threshold = c.Threshold
				case 1:
					d.StartBatchIndex = c.StartBatchIndex
				case 2:
					d.TargetFunctionSelector = c.TargetFunctionSelector
				case 3:
					d.ExecutionTimeout = c.ExecutionTimeout
				case 4:
					d = d.dedup()
					if int(d.Threshold) > len(d.Keypers) {
						d.Threshold = uint64(len(d.Keypers))
					}
				}
				return d
			}
		case 1: // the same keypers in another order, or some of them
			if n := len(next.Keypers); n > 0 {
				p := r.Perm(n)
				c.Keypers = nil
				for _, i := range p[:1+r.Intn(n)] {
					c.Keypers = append(c.Keypers, next.Keypers[i])
				}
				c.Threshold = 1
			}
		}
		return c
	}
	autoOK := func(c rawConfig, h0 uint64) {
		h1 := w.e.head()
		hu := w.headsUp
		if last.BatchSpan > hu {
			hu = last.BatchSpan
		}
		lim := h1 + hu + 20
		if last.StartBlockNumber > lim {
			lim = last.StartBlockNumber
		}
		lim += 2*last.BatchSpan + 1
		k.Check(c.StartBlockNumber > h0+hu && c.StartBlockNumber <= lim, "auto-start", "the chosen start block is %d, the chain is at %d to %d, heads up %d, last config %v", c.StartBlockNumber, h0, h1, w.headsUp, last)
		k.Check(c.StartBlockNumber >= last.StartBlockNumber, "auto-start", "the chosen start block is %d, that of the config before %d", c.StartBlockNumber, last.StartBlockNumber)
		want := last.StartBatchIndex
		if last.BatchSpan > 0 {
			want += (c.StartBlockNumber - last.StartBlockNumber) / last.BatchSpan
			k.Check((c.StartBlockNumber-last.StartBlockNumber)%last.BatchSpan == 0 && c.StartBlockNumber > last.StartBlockNumber, "auto-start", "the chosen start block %d isn't the start of a batch of %v", c.StartBlockNumber, last)
		}
		k.Check(c.StartBatchIndex == want, "auto-start", "the chosen start batch is %d, not %d, last config %v", c.StartBatchIndex, want, last)
		if last.StartBlockNumber > h0+hu+20 {
			k.Count("last config in the future")
		}
		if last.BatchSpan > w.headsUp+21 {
			k.Count("long batches before")
		}
	}
	switch op := r.Intn(13); op {
	case 0, 1, 2: // set-next
		c := newConfig()
		auto := r.Intn(4) == 0 && !final
		b, err := json.MarshalIndent(jsonConfig(r, c, auto), "", " ")
		must(err)
		f := w.write("next.json", b)
		h0 := w.e.head()
		args, price := w.price(w.flags(w.owner, &env, "config", "set-next", "--config", f))
		holding(pend)
		n0 := cost()
		time.AfterFunc(time.Duration(r.Intn(300))*time.Millisecond, release)
		res := w.run(env, args...)
		release()
		all2, next2 := w.state()
		if !k.Check(res.code == 0, "set-next", "set-next with %v fails: %v", c, res) {
			return "set-next"
		}
		w.txs(res, price, n0)
		k.Check(sameConfigs(all, all2), "changed", "set-next changes scheduled configs")
		if auto {
			autoOK(next2, h0)
			c.StartBatchIndex, c.StartBlockNumber = next2.StartBatchIndex, next2.StartBlockNumber
			k.Count("set-next: auto start")
		}
		k.Check(next2.equal(c), "set-next", "set-next with %v makes the next config %v, before it was %v: %v", c, next2, next, res)
		if len(next.dedup().Keypers) < len(next.Keypers) && fmt.Sprint(next.Keypers) != fmt.Sprint(c.Keypers) {
			k.Count("duplicates replaced")
		}
		k.Count("set-next: done")
		return "set-next"
	case 3: // an invalid file
		c := w.randConfig()
		what, b := spoil(r, jsonConfig(r, c, false))
		f := w.write("next.json", b)
		cmd := []string{"set-next", "schedule"}[r.Intn(2)]
		args := w.flags(w.owner, &env, "config", cmd, "--config", f)
		res := w.run(env, args...)
		k.Check(res.code != 0, "invalid-accepted", "%s accepts a config with %s: %s: %v", cmd, what, b, res)
		unchanged("an invalid config ("+what+")", res, 0)
		k.Count("set-next: invalid file")
		k.Seen("invalid files", what)
		return "invalid"
	case 4: // not the owner, or no key
		c := newConfig()
		b, err := json.Marshal(jsonConfig(r, c, r.Intn(2) == 0))
		must(err)
		f := w.write("next.json", b)
		key := w.other
		if r.Intn(3) == 0 {
			key = nil
		}
		args := w.flags(key, &env, "config", []string{"set-next", "schedule"}[r.Intn(2)], "--config", f)
		if c.equal(next) && key != nil {
			return "same"
		}
		res := w.run(env, args...)
		k.Check(res.code != 0, "not-owner", "somebody else than the owner can set or schedule the next config: %v", res)
		unchanged("somebody else than the owner", res, 0)
		k.Count("set-next: not the owner")
		return "not owner"
	case 5, 6: // schedule
		fits := r.Intn(3) > 0
		late := fits && r.Intn(3) == 0
		if fits {
			c := w.randConfig()
			c.BatchSpan = []uint64{0, 1, 3, 10, 60, 150}[r.Intn(6)]
			if r.Intn(4) == 0 {
				c.Keypers = w.randKeypers(true)
			}
			w.follow(&c, 20)
			if late && c.StartBlockNumber > w.e.head()+500 {
				late = false
			}
			w.direct(c, false)
			next = c
		}
		holding(pend) // until the transaction is there
		w.mux.Lock()
		can := w.predict()
		if late && can {
			w.lazy = int(next.StartBlockNumber - w.e.head())
		}
		w.mux.Unlock()
		args, price := w.price(w.flags(w.owner, &env, "config", "schedule"))
		n0 := cost()
		go func() {
			for i := 0; i < 2000; i++ {
				w.e.mux.Lock()
				n := w.e.pendingNonce(addrOf(w.owner))
				w.e.mux.Unlock()
				if !can || n > n0 {
					break
				}
				time.Sleep(3 * time.Millisecond)
			}
			release()
		}()
		res := w.run(env, args...)
		release()
		w.mux.Lock()
		w.lazy = 0
		w.mux.Unlock()
		if late && can {
			k.Check(res.code != 0, "revert-unnoticed", "schedule ends with success though its transaction reverted: %v", res)
			k.Check(strings.Contains(res.stderr+res.out, "start block too early"), "no-reason", "schedule doesn't tell why its transaction reverted: %v", res)
			unchanged("a late schedule", res, 1)
			k.Count("schedule: reverts when mined")
			return "late schedule"
		}
		if !can {
			k.Check(res.code != 0, "refusal-unnoticed", "schedule ends with success though the contract refuses it: %v", res)
			unchanged("a refused schedule", res, -1)
			k.Count("schedule: refused")
			return "refused schedule"
		}
		k.Check(res.code == 0, "schedule", "schedule fails: %v", res)
		w.txs(res, price, n0)
		w.scheduled(all, next, res)
		k.Count("schedule: done")
		return "schedule"
	case 7, 8: // schedule --config with a start that's chosen
		if final {
			return "none can follow"
		}
		c := newConfig()
		c.BatchSpan = []uint64{0, 1, 3, 10, 60, 150}[r.Intn(6)]
		b, err := json.MarshalIndent(jsonConfig(r, c, true), "", " ")
		must(err)
		f := w.write("next.json", b)
		h0 := w.e.head()
		args, price := w.price(w.flags(w.owner, &env, "config", "schedule", "--config", f))
		n0 := cost()
		res := w.run(env, args...)
		if !k.Check(res.code == 0, "schedule", "schedule --config fails: chain at %d to %d, last config %v: %v", h0, w.e.head(), last, res) {
			return "schedule --config"
		}
		w.txs(res, price, n0)
		all2, _ := w.state()
		if !k.Check(len(all2) == len(all)+1, "schedule", "%d configs become %d", len(all), len(all2)) {
			return "schedule --config"
		}
		got := all2[len(all)]
		autoOK(got, h0)
		c.StartBatchIndex, c.StartBlockNumber = got.StartBatchIndex, got.StartBlockNumber
		w.scheduled(all, c, res)
		k.Count("schedule --config: done")
		return "schedule --config"
	case 9, 10: // query
		what := []string{"next", "last", "all", fmt.Sprint(r.Intn(len(all))), fmt.Sprint(len(all) + r.Intn(3))}[r.Intn(5)]
		args := w.flags(nil, &env, "config", "query")
		if what != "all" || r.Intn(2) == 0 {
			args = append(args, "-i", what)
		}
		res := w.run(env, args...)
		unchanged("a query", res, 0)
		i, err := strconv.Atoi(what)
		if err == nil && i >= len(all) {
			k.Check(res.code != 0, "query", "query of config %d of %d: %v", i, len(all), res)
			k.Count("query: no such config")
			return "query"
		}
		if !k.Check(res.code == 0, "query", "query fails: %v", res) {
			return "query"
		}
		want := []rawConfig{next}
		switch what {
		case "next":
		case "last":
			want = all[len(all)-1:]
		case "all":
			want = all
		default:
			want = all[i : i+1]
			what = "one"
		}
		var ms []map[string]interface{}
		if what == "all" {
			err = decodeJSON(res.out, &ms)
		} else {
			ms = []map[string]interface{}{nil}
			err = decodeJSON(res.out, &ms[0])
		}
		if !k.Check(err == nil && len(ms) == len(want), "query", "query %s: %d configs, %v: %v", what, len(ms), err, res) {
			return "query"
		}
		for j := range ms {
			got, ok := parsed(k, ms[j])
			k.Check(ok && got.equal(want[j].dedup()), "query", "query %s: config %d is %v, not %v", what, j, got, want[j])
			// what is printed can be used again
			b, err := json.Marshal(ms[j])
			must(err)
			var bc contract.BatchConfig
			err = json.Unmarshal(b, &bc)
			if d := want[j].dedup(); d.Threshold > 0 && int(d.Threshold) <= len(d.Keypers) {
				k.Check(err == nil && rawConfig{bc}.equal(d), "round-trip", "a printed config isn't read as it was: %s: %v, %v", b, bc, err)
				k.Count("printed configs read again")
			}
		}
		k.Count("query: " + what)
		return "query"
	case 11: // the contract has another owner when some of the transactions of set-next are mined
		c := newConfig()
		b, err := json.Marshal(jsonConfig(r, c, false))
		must(err)
		f := w.write("next.json", b)
		args, _ := w.price(w.flags(w.owner, &env, "config", "set-next", "--config", f))
		give := func(from, to *ecdsa.PrivateKey) common.Hash {
			tx, err := w.cc.TransferOwnership(w.auth(from), addrOf(to))
			must(err)
			return tx.Hash()
		}
		only := func(pick func(tx *types.Transaction) bool) {
			w.e.mine(func(_ int, tx *types.Transaction) bool { return pick(tx) })
		}
		holding(func() {
			w.mux.Lock()
			give(w.owner, w.other)
			w.mux.Unlock()
		})
		n0 := cost()
		ch := make(chan cmdResult, 1)
		go func() { ch <- w.run(env, args...) }()
		var res cmdResult
		ended, n, same := false, n0, 0
		for !ended && (n == n0 || same < 60) { // until all transactions are there
			select {
			case res = <-ch:
				ended = true
			case <-time.After(5 * time.Millisecond):
			}
			if m := cost(); m != n {
				n, same = m, 0
			}
			same++
		}
		// the first ones are mined while the contract has the other owner
		sent := int(n - n0)
		to := r.Intn(sent + 1)
		own := addrOf(w.owner)
		sender := func(tx *types.Transaction) common.Address {
			a, err := types.Sender(w.e.signer(), tx)
			must(err)
			return a
		}
		w.mux.Lock()
		only(func(tx *types.Transaction) bool { return sender(tx) == own && tx.Nonce() < n0+uint64(to) })
		give(w.other, w.owner)
		only(func(tx *types.Transaction) bool { return sender(tx) != own })
		w.mux.Unlock()
		release()
		if !ended {
			res = <-ch
		}
		w.mux.Lock()
		o, err := w.cc.Owner(nil)
		w.mux.Unlock()
		must(err)
		if o != own {
			panic(fmt.Sprintf("the owner is %s", o.Hex()))
		}
		all2, next2 := w.state()
		k.Check(sameConfigs(all, all2), "changed", "set-next changes scheduled configs")
		reverted := 0
		for _, tx := range res.sent {
			w.e.mux.Lock()
			b, i := w.e.find(tx.Hash())
			w.e.mux.Unlock()
			if b != nil && sender(tx) == own && tx.Nonce() >= n0 && b.receipts[i].Status == 0 {
				reverted++
			}
		}
		if reverted == 0 {
			k.Check(res.code == 0 && next2.equal(c), "set-next", "set-next with %v makes the next config %v, before it was %v: %v", c, next2, next, res)
			return "set-next"
		}
		k.Check(res.code != 0, "revert-unnoticed", "set-next ends with success though %d of its %d transactions reverted: %v", reverted, sent, res)
		k.Check(strings.Contains(res.stderr+res.out, "caller is not the owner"), "no-reason", "set-next doesn't tell why its transactions reverted: %v", res)
		k.Count("set-next: reverts when mined")
		if reverted < sent {
			k.Count("set-next: some transactions revert")
		}
		return "set-next reverts"
	default: // list
		args := w.flags(nil, &env, "config", "list")
		res := w.run(env, args...)
		unchanged("list", res, 0)
		k.Check(res.code == 0, "list", "list fails: %v", res)
		var got, want [][]string
		re := regexp.MustCompile(`^(\d+|Next)\s+(\d+)\s+(\d+)\s*$`)
		for _, l := range strings.Split(res.out, "\n") {
			if m := re.FindStringSubmatch(l); m != nil {
				got = append(got, m[1:])
			}
		}
		for i, c := range all {
			want = append(want, []string{fmt.Sprint(i), fmt.Sprint(c.StartBatchIndex), fmt.Sprint(c.StartBlockNumber)})
		}
		want = append(want, []string{"Next", fmt.Sprint(next.StartBatchIndex), fmt.Sprint(next.StartBlockNumber)})
		k.Check(fmt.Sprint(got) == fmt.Sprint(want), "list", "list prints %v, not %v", got, want)
		k.Count("list")
		return "list"
	}
}

// predict tells whether the contract accepts scheduleNextConfig in the next block.
func (w *configWorld) predict() bool {
	data := crypto.Keccak256([]byte("scheduleNextConfig()"))[:4]
	from := addrOf(w.owner)
	w.e.mux.Lock()
	defer w.e.mux.Unlock()
	hd := hexBytes(data)
	_, _, err := w.e.run(w.e.blocks[len(w.e.blocks)-1], callArgs{From: &from, To: &w.addr, Data: &hd}, true)
	return err == nil
}

// scheduled checks that exactly next was scheduled.
func (w *configWorld) scheduled(before []rawConfig, next rawConfig, res cmdResult) {
	all, nn := w.state()
	k := w.k
	k.Check(len(all) == len(before)+1 && sameConfigs(before, all[:len(before)]) && all[len(before)].equal(next), "schedule", "scheduling %v turns %v into %v: %v", next, before, all, res)
	k.Check(nn.equal(rawConfig{}), "schedule", "after scheduling the next config is %v", nn)
}
