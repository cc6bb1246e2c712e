package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	"github.com/spf13/viper"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// ---- C30: setting up a system with the program

func checkC30(c *vt.C) {
	needBinary()
	c.Cases("setup", c.N(40, 700), 0, setupCase)
	c.Cases("deploy", c.N(40, 700), 0, deployCase)
	c.Cases("keyper-config", c.N(240, 3000), 0, keyperConfigCase)
	c.Cases("toml", c.N(400, 20000), 0, tomlCase)
	c.Cases("search", c.N(40, 700), 0, searchCase)
	for _, n := range []string{"deploy: done", "deploy: with a registry already", "deploy: registry deployed", "deploy: no registry", "deploy: no money", "deploy: failing node", "deploy: gas price 0", "deploy: bad arguments",
		"configs: prepared", "configs: refused to overwrite", "fund: done", "fund: nothing to do", "fund: no money", "fund: reverts", "fund: query", "schedule", "bootstrap: done", "bootstrap: wrong key", "bootstrap: no such config",
		"bootstrap: several genesis keypers", "bootstrap: again", "unfund: done", "unfund: reverts", "unfund: skipped", "unfund: bad receiver", "unfund: bad config", "keyper: accepted", "txsearch: more than a page", "txsearch: full pages", "txsearch: range", "show", "malformed events"} {
		c.Require(n, 1)
	}
}

const gwei = 1_000_000_000

func ether(f float64) *big.Int {
	x, _ := new(big.Float).Mul(big.NewFloat(f), big.NewFloat(1e18)).Int(nil)
	return x
}

type setupWorld struct {
	*chainCLI
	owner, rich *ecdsa.PrivateKey
}

func newSetupWorld(k *vt.K) *setupWorld {
	w := &setupWorld{owner: keyOf(fmt.Sprintf("deployer %d", k.R.Int63())), rich: keyOf("rich")}
	w.chainCLI = newChainCLI(k, newEthSim([]common.Address{addrOf(w.rich)}))
	w.e.gasPrice = int64(1 + k.R.Intn(100))
	w.e.checkFunds = true
	return w
}

// give sends money and waits until it's there.
func (w *setupWorld) give(to common.Address, amount *big.Int) {
	w.mux.Lock()
	a := w.auth(w.rich)
	tx, err := types.SignTx(types.NewTransaction(a.Nonce.Uint64(), to, amount, 21000, big.NewInt(1), nil), w.e.signer(), w.rich)
	must(err)
	must(w.cl.SendTransaction(context.Background(), tx))
	w.mux.Unlock()
	w.mineAll()
}

func (w *setupWorld) balance(a common.Address) *big.Int {
	b, err := w.cl.BalanceAt(context.Background(), a, nil)
	must(err)
	return b
}

var contractNames = []string{"ConfigContract", "KeyBroadcastContract", "FeeBankContract", "BatcherContract", "ExecutorContract", "TokenContract", "DepositContract", "KeyperSlasherContract", "TargetProxyContract", "TargetContract"}

// wiring checks that the contracts refer to each other.
func (w *setupWorld) wiring(k *vt.K, m map[string]common.Address) {
	cl := w.cl
	eq := func(what string, got common.Address, err error, want string) {
		k.Check(err == nil && got == m[want], "wiring", "%s is %s, %v, but %s is %s", what, got.Hex(), err, want, m[want].Hex())
		k.Count("references between contracts checked")
	}
	own := func(what string, got common.Address, err error) {
		k.Check(err == nil && got == addrOf(w.owner), "wiring", "the owner of %s is %s, %v, not %s", what, got.Hex(), err, addrOf(w.owner).Hex())
	}
	for _, n := range contractNames {
		code, err := cl.CodeAt(context.Background(), m[n], nil)
		must(err)
		k.Check(len(code) > 0, "no-code", "%s is said to be at %s, there's nothing", n, m[n].Hex())
	}
	if k.Failed() {
		return
	}
	cc, err := contract.NewConfigContract(m["ConfigContract"], cl)
	must(err)
	hu, err := cc.ConfigChangeHeadsUpBlocks(nil)
	k.Check(err == nil && hu == 20, "wiring", "the heads-up of the config contract is %d, %v", hu, err)
	a, err := cc.Owner(nil)
	own("the config contract", a, err)
	kb, err := contract.NewKeyBroadcastContract(m["KeyBroadcastContract"], cl)
	must(err)
	a, err = kb.ConfigContract(nil)
	eq("the config contract of the key broadcast contract", a, err, "ConfigContract")
	ba, err := contract.NewBatcherContract(m["BatcherContract"], cl)
	must(err)
	a, err = ba.ConfigContract(nil)
	eq("the config contract of the batcher", a, err, "ConfigContract")
	a, err = ba.FeeBankContract(nil)
	eq("the fee bank of the batcher", a, err, "FeeBankContract")
	ex, err := contract.NewExecutorContract(m["ExecutorContract"], cl)
	must(err)
	a, err = ex.ConfigContract(nil)
	eq("the config contract of the executor", a, err, "ConfigContract")
	a, err = ex.BatcherContract(nil)
	eq("the batcher of the executor", a, err, "BatcherContract")
	a, err = ex.DepositContract(nil)
	eq("the deposit contract of the executor", a, err, "DepositContract")
	de, err := contract.NewDepositContract(m["DepositContract"], cl)
	must(err)
	a, err = de.Token(nil)
	eq("the token of the deposit contract", a, err, "TokenContract")
	a, err = de.Slasher(nil)
	eq("the slasher of the deposit contract", a, err, "KeyperSlasherContract")
	sl, err := contract.NewKeyperSlasher(m["KeyperSlasherContract"], cl)
	must(err)
	a, err = sl.ConfigContract(nil)
	eq("the config contract of the slasher", a, err, "ConfigContract")
	a, err = sl.ExecutorContract(nil)
	eq("the executor of the slasher", a, err, "ExecutorContract")
	a, err = sl.DepositContract(nil)
	eq("the deposit contract of the slasher", a, err, "DepositContract")
	ab, err := sl.AppealBlocks(nil)
	k.Check(err == nil && ab.Cmp(big.NewInt(20)) == 0, "wiring", "the slasher leaves %s blocks for appeals, %v", ab, err)
	tp, err := contract.NewTargetProxyContract(m["TargetProxyContract"], cl)
	must(err)
	a, err = tp.Executor(nil)
	eq("the executor of the target proxy", a, err, "ExecutorContract")
	tt, err := contract.NewTestTargetContract(m["TargetContract"], cl)
	must(err)
	a, err = tt.Executor(nil)
	eq("the executor of the target", a, err, "TargetProxyContract")
	to, err := contract.NewTestDepositTokenContract(m["TokenContract"], cl)
	must(err)
	ts, err := to.TotalSupply(nil)
	k.Check(err == nil && ts.Sign() > 0, "wiring", "the token's total supply is %s, %v", ts, err)
}

// deployed reads what deploy printed.
func deployed(k *vt.K, res cmdResult) (map[string]common.Address, uint64) {
	m := map[string]common.Address{}
	gas := uint64(math.MaxUint64)
	for _, l := range strings.Split(res.out, "\n") {
		i := strings.Index(l, ":")
		if i < 0 {
			continue
		}
		n, v := strings.TrimSpace(l[:i]), strings.TrimSpace(l[i+1:])
		if n == "KeyperSlasher" {
			n = "KeyperSlasherContract"
		}
		if common.IsHexAddress(v) {
			k.Check(common.HexToAddress(v).Hex() == v, "bad-address", "deploy prints %q", l)
			m[n] = common.HexToAddress(v)
		}
		if n == "Gas used" {
			gas, _ = strconv.ParseUint(v, 10, 64)
		}
	}
	return m, gas
}

// deploy runs the command and checks what it did. It returns the addresses if it's supposed to
// succeed.
func (w *setupWorld) deploy(k *vt.K, ok bool, price *big.Int, args ...string) map[string]common.Address {
	file := filepath.Join(w.dir, "contracts.json")
	nonce, err := w.cl.PendingNonceAt(context.Background(), addrOf(w.owner))
	must(err)
	had, err := w.cl.CodeAt(context.Background(), erc1820.ContractAddress, nil)
	must(err)
	args = append([]string{"deploy", "-o", file, "-e", w.url()}, args...)
	res := w.run(nil, args...)
	_, ferr := os.Stat(file)
	if !ok {
		k.Check(res.code != 0, "failure-unnoticed", "deploy ends with success: %v", res)
		k.Check(os.IsNotExist(ferr), "file-left", "deploy fails, but writes the file with the addresses: %v", res)
		return nil
	}
	if !k.Check(res.code == 0 && ferr == nil, "deploy", "deploy fails: %v: %v", ferr, res) {
		return nil
	}
	m, gas := deployed(k, res)
	b, err := os.ReadFile(file)
	must(err)
	var j map[string]string
	k.Check(json.Unmarshal(b, &j) == nil && len(j) == len(contractNames), "file", "the file with the addresses is %s", b)
	seen := map[common.Address]string{}
	for _, n := range contractNames {
		k.Check(j[n] == m[n].Hex() && m[n] != common.Address{}, "file", "%s is at %s, in the file at %s", n, m[n].Hex(), j[n])
		k.Check(seen[m[n]] == "", "file", "%s and %s are both at %s", n, seen[m[n]], m[n].Hex())
		seen[m[n]] = n
	}
	w.wiring(k, m)
	// the transactions
	var used uint64
	n := 0
	for _, tx := range res.sent {
		from, err := types.Sender(w.e.signer(), tx)
		must(err)
		w.e.mux.Lock()
		blk, i := w.e.find(tx.Hash())
		w.e.mux.Unlock()
		if !k.Check(blk != nil, "not-waited", "deploy ends before its transaction %s is mined: %v", tx.Hash().Hex(), res) {
			continue
		}
		r := blk.receipts[i]
		k.Check(r.Status == 1, "reverted", "a transaction reverts, deploy ends with success: %v", res)
		if from != addrOf(w.owner) {
			k.Check(tx.Hash() == erc1820.DeploymentTransaction.Hash(), "foreign", "a transaction of %s", from.Hex())
			continue
		}
		k.Check(tx.Nonce() == nonce, "nonce", "a transaction has nonce %d, the next is %d", tx.Nonce(), nonce)
		nonce++
		if tx.To() != nil {
			k.Check(len(had) == 0 && *tx.To() == erc1820.DeployerAddress, "payment", "deploy sends %s wei to %s", tx.Value(), tx.To().Hex())
			continue
		}
		n++
		used += r.GasUsed
		k.Check(tx.GasPrice().Cmp(price) == 0, "gas-price", "a transaction has gas price %s, not %s: %v", tx.GasPrice(), price, res)
	}
	k.Check(n == len(contractNames), "deploy", "deploy sends %d contracts", n)
	k.Check(gas == used, "gas", "deploy says it used %d gas, it's %d", gas, used)
	k.Count("deploy: done")
	return m
}

func (w *setupWorld) registry() {
	w.give(erc1820.DeployerAddress, erc1820.DeployerAmount)
	must(w.cl.SendTransaction(context.Background(), erc1820.DeploymentTransaction))
	w.mineAll()
}

func deployCase(k *vt.K) {
	r := k.R
	w := newSetupWorld(k)
	defer w.close()
	w.give(addrOf(w.owner), ether(100))
	for i := r.Intn(3); i > 0; i-- { // earlier transactions of the deployer
		tx, err := types.SignTx(types.NewTransaction(uint64(w.ownerNonce()), addrOf(w.rich), big.NewInt(1), 21000, big.NewInt(1), nil), w.e.signer(), w.owner)
		must(err)
		must(w.cl.SendTransaction(context.Background(), tx))
		if r.Intn(2) == 0 {
			w.mineAll()
		}
	}
	have := r.Intn(2) == 0
	if have {
		w.registry()
	}
	price := big.NewInt(w.e.gasPrice)
	key := keyHex(w.owner)
	if r.Intn(2) == 0 {
		key = "0x" + key
	}
	args := []string{"-k", key}
	ok := true
	what := "fine"
	if r.Intn(3) == 0 {
		p := int64(r.Intn(40))
		if r.Intn(2) == 0 {
			p = 0
			k.Count("deploy: gas price 0")
		}
		price = new(big.Int).Mul(big.NewInt(p), big.NewInt(gwei))
		args = append(args, "--gas-price", fmt.Sprint(p))
		what = fmt.Sprintf("price %d", p)
	} else if r.Intn(8) == 0 {
		w.e.gasPrice, price = -1, new(big.Int) // the node suggests 0
		k.Count("deploy: gas price 0")
		what = "suggested price 0"
	}
	no := r.Intn(2) == 0
	if no {
		args = append(args, "--no-erc1820")
	}
	switch {
	case have:
		k.Count("deploy: with a registry already")
	case no: // the token can't be deployed
		ok = false
		k.Count("deploy: no registry")
	default:
		k.Count("deploy: registry deployed")
	}
	switch r.Intn(8) {
	case 0:
		n := 1 + r.Intn(10)
		if !have && !no {
			n += r.Intn(3)
		}
		w.e.mux.Lock()
		var mux sync.Mutex
		w.e.fault = func(m string) error {
			mux.Lock()
			defer mux.Unlock()
			if m == "sendRawTransaction" {
				if n--; n == 0 {
					return fmt.Errorf("no")
				}
			}
			return nil
		}
		w.e.mux.Unlock()
		ok, what = false, what+", failing node"
		k.Count("deploy: failing node")
	case 1:
		// all but a little goes away
		b := w.balance(addrOf(w.owner))
		left := big.NewInt(r.Int63n(5 * 1_000_000 * 1))
		if price.Sign() == 0 {
			break
		}
		amount := new(big.Int).Sub(b, left)
		amount.Sub(amount, big.NewInt(21000+21000*3))
		tx, err := types.SignTx(types.NewTransaction(uint64(w.ownerNonce()), addrOf(w.rich), amount, 21000, big.NewInt(1), nil), w.e.signer(), w.owner)
		must(err)
		must(w.cl.SendTransaction(context.Background(), tx))
		w.mineAll()
		if price.Cmp(big.NewInt(2)) >= 0 { // a contract needs more than 2 500 000 gas
			ok, what = false, what+", no money"
			k.Count("deploy: no money")
		} else {
			return
		}
	case 2:
		bad := [][]string{{"-k", "0x1234"}, {"-k", ""}, {"-k", strings.Repeat("0", 64)}, {"-k", key, "--gas-price", "-1"}, {"-k", key, "--gas-price", "1.5"}, {"-k", key, "--gas-price", "x"}, {"-k", key, "more"}, {}}[r.Intn(8)]
		args = bad
		ok, what = false, fmt.Sprintf("bad arguments %q", bad)
		k.Count("deploy: bad arguments")
	}
	k.Tracef("%s, registry there %v, no-erc1820 %v, gas price %s, expected to succeed: %v", what, have, no, price, ok)
	w.deploy(k, ok, price, args...)
	k.Eval(fmt.Sprint(what, have, no, price), ok)
}

func (w *setupWorld) ownerNonce() uint64 {
	w.e.mux.Lock()
	defer w.e.mux.Unlock()
	return w.e.pendingNonce(addrOf(w.owner))
}

// prepared is a keyper's config file read without the program's code.
func readTOML(b []byte) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "="); i > 0 && !strings.HasPrefix(l, "#") {
			m[strings.TrimSpace(l[:i])] = strings.Trim(strings.TrimSpace(l[i+1:]), `"`)
		}
	}
	return m
}

func setupCase(k *vt.K) {
	r := k.R
	w := newSetupWorld(k)
	defer w.close()
	w.give(addrOf(w.owner), ether(1000))
	m := w.deploy(k, true, big.NewInt(w.e.gasPrice), "-k", keyHex(w.owner))
	if m == nil {
		return
	}
	contracts := filepath.Join(w.dir, "contracts.json")

	// the keypers' configs
	n := 1 + r.Intn(7)
	dir := filepath.Join(w.dir, "run", "x")
	shURL := "http://localhost:" + fmt.Sprint(1000+r.Intn(1000))
	args := []string{"prepare", "configs", "-c", contracts, "-e", w.url(), "-s", shURL, "-d", dir, "-n", fmt.Sprint(n)}
	if n == 3 && r.Intn(2) == 0 {
		args = args[:len(args)-2]
	}
	for _, bad := range []string{"0", "-1"} {
		res := w.run(nil, append(args[:len(args):len(args)], "-n", bad)...)
		_, err := os.Stat(dir)
		k.Check(res.code != 0 && os.IsNotExist(err), "configs", "%s configs are prepared: %v", bad, res)
	}
	res := w.run(nil, args...)
	if !k.Check(res.code == 0, "configs", "prepare configs fails: %v", res) {
		return
	}
	files := map[string][]byte{}
	var keys []*ecdsa.PrivateKey
	var ks []common.Address
	secrets := map[string]bool{}
	for i := 0; i < n; i++ {
		p := filepath.Join(dir, fmt.Sprintf("keyper%d", i), "config.toml")
		b, err := os.ReadFile(p)
		if !k.Check(err == nil, "configs", "no config of keyper %d: %v", i, err) {
			return
		}
		files[p] = b
		st, err := os.Stat(p)
		must(err)
		k.Check(st.Mode().Perm() == 0o600, "permissions", "the config of keyper %d, which contains its keys, has mode %v", i, st.Mode())
		t := readTOML(b)
		for n, want := range map[string]string{"BatcherContract": m["BatcherContract"].Hex(), "ConfigContract": m["ConfigContract"].Hex(), "DepositContract": m["DepositContract"].Hex(), "ExecutorContract": m["ExecutorContract"].Hex(),
			"KeyBroadcastContract": m["KeyBroadcastContract"].Hex(), "KeyperSlasher": m["KeyperSlasherContract"].Hex(), "EthereumURL": w.url(), "ShuttermintURL": shURL} {
			k.Check(t[n] == want, "configs", "%s of keyper %d is %s, not %s", n, i, t[n], want)
		}
		sk, err := crypto.HexToECDSA(t["SigningKey"])
		if !k.Check(err == nil, "configs", "the signing key of keyper %d is bad: %v", i, err) {
			return
		}
		for _, n := range []string{"SigningKey", "EncryptionKey", "ValidatorSeed"} {
			x, err := hex.DecodeString(t[n])
			k.Check(err == nil && len(x) == 32, "configs", "%s of keyper %d is bad: %v", n, i, err)
			k.Check(!secrets[t[n]], "secrets", "%s of keyper %d is used twice", n, i)
			secrets[t[n]] = true
		}
		k.Check(strings.Contains(strings.SplitN(string(b), "\n", 2)[0], addrOf(sk).Hex()), "configs", "the first line of keyper %d's config doesn't name %s", i, addrOf(sk).Hex())
		keys = append(keys, sk)
		ks = append(ks, addrOf(sk))
		for s := range map[string]bool{t["SigningKey"]: true, t["EncryptionKey"]: true, t["ValidatorSeed"]: true} {
			k.Check(!strings.Contains(res.out+res.stderr, s), "secrets", "prepare configs prints a secret key")
		}
	}
	_, err := os.Stat(filepath.Join(dir, fmt.Sprintf("keyper%d", n)))
	k.Check(os.IsNotExist(err), "configs", "there are more than %d configs", n)
	cfgFile := filepath.Join(dir, "config.json")
	b, err := os.ReadFile(cfgFile)
	must(err)
	files[cfgFile] = b
	var jm map[string]interface{}
	k.Check(decodeJSON(string(b), &jm) == nil, "configs", "config.json is %s", b)
	conf, ok := parsed(k, jm)
	want := conf
	want.Keypers, want.Threshold, want.TargetAddress = ks, uint64((2*n+2)/3), m["TargetContract"]
	want.StartBatchIndex, want.StartBlockNumber = 0, 0
	if !k.Check(ok && conf.equal(want) && conf.BatchSpan > 0, "configs", "config.json has %v, not %v", conf, want) {
		return
	}
	k.Check(strings.Contains(res.out, string(b)), "configs", "prepare configs doesn't print config.json")
	k.Count("configs: prepared")
	if r.Intn(2) == 0 { // never again
		w.again(k, dir, files, args, n)
	}

	w.fund(k, cfgFile, ks)
	if k.Failed() {
		return
	}
	if r.Intn(2) == 0 {
		w.fundContract(k, b, m["ConfigContract"])
	}

	// the config gets scheduled
	genesis := []*ecdsa.PrivateKey{keyOf("genesis 0")}
	if r.Intn(3) == 0 {
		genesis = append(genesis, keyOf("genesis 1"), keyOf("genesis 2"))[:2+r.Intn(2)]
	}
	tm := newTmSim(addrs(genesis), uint64((2*len(genesis)+2)/3), "")
	tmn := newTmNode(tm, nil)
	defer tmn.close()
	stop := make(chan struct{})
	defer close(stop)
	tm.block(nil)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(5 * time.Millisecond):
				if tm.mempoolSize() > 0 {
					tm.block(tm.takeMempool())
				}
			}
		}
	}()
	boot := func(key *ecdsa.PrivateKey, more ...string) cmdResult {
		a := []string{"bootstrap", "-s", "http://" + tmn.addr(), "-e", w.url(), "-c", contracts, "-k", keyHex(key)}
		return w.run(nil, append(a, more...)...)
	}
	appState := func() string {
		tm.mux.Lock()
		defer tm.mux.Unlock()
		var s []string
		for _, c := range tm.app.Configs {
			s = append(s, fmt.Sprintf("%+v", *c))
		}
		return fmt.Sprintf("%v votes %v %v eon %d", s, len(tm.app.ConfigVoting.Candidates), len(tm.app.StartedVotes), tm.app.EONCounter)
	}
	before := appState()
	if r.Intn(2) == 0 { // nothing but the guard is there
		res := boot(genesis[0])
		k.Check(res.code != 0 && appState() == before, "bootstrap-nothing", "bootstrap without a config: %s -> %s: %v", before, appState(), res)
		k.Count("bootstrap: no config yet")
	}
	nconf := 1 + r.Intn(2)
	for i := 0; i < nconf; i++ {
		res := w.run(nil, "config", "schedule", "--config", cfgFile, "-c", contracts, "-e", w.url(), "-k", keyHex(w.owner))
		if !k.Check(res.code == 0, "schedule", "the prepared config can't be scheduled: %v", res) {
			return
		}
	}
	cc, err := contract.NewConfigContract(m["ConfigContract"], w.cl)
	must(err)
	idx := nconf
	if nconf > 1 && r.Intn(2) == 0 {
		idx = 1
	}
	got, err := cc.ConfigForConfigIndex(nil, uint64(idx))
	must(err)
	conf.StartBatchIndex, conf.StartBlockNumber = got.StartBatchIndex, got.StartBlockNumber
	k.Check(rawConfig{got}.equal(conf), "schedule", "the prepared config is scheduled as %v, it's %v", rawConfig{got}, conf)
	k.Count("schedule")

	// bootstrap
	var more []string
	if idx != nconf || r.Intn(2) == 0 {
		more = []string{"-i", fmt.Sprint(idx)}
	}
	if r.Intn(2) == 0 {
		res := boot(keyOf("stranger"), more...)
		k.Check(res.code != 0 && appState() == before, "bootstrap-stranger", "bootstrap with a key that's not a genesis keyper's: %s -> %s: %v", before, appState(), res)
		k.Count("bootstrap: wrong key")
	}
	if r.Intn(2) == 0 {
		res := boot(genesis[0], "-i", fmt.Sprint(nconf+1+r.Intn(3)))
		k.Check(res.code != 0 && appState() == before, "bootstrap-missing", "bootstrap with a config that doesn't exist: %s -> %s: %v", before, appState(), res)
		k.Count("bootstrap: no such config")
	}
	thr := (2*len(genesis) + 2) / 3
	for i := 0; i < thr; i++ {
		tm.mux.Lock()
		nc := len(tm.app.Configs)
		tm.mux.Unlock()
		k.Check(nc == 1, "bootstrap-early", "after %d of %d votes there are %d configs", i, thr, nc)
		res := boot(genesis[i], more...)
		// all but the last one can't start the config yet
		k.Check((res.code == 0) == (i == thr-1), "bootstrap", "bootstrap %d of %d: %v", i+1, thr, res)
	}
	if thr > 1 { // the others start it
		for i := 0; i < thr-1; i++ {
			res := boot(genesis[i], more...)
			k.Check(res.code == 0, "bootstrap", "bootstrap of genesis keyper %d, again: %v", i, res)
		}
		k.Count("bootstrap: several genesis keypers")
	}
	tm.mux.Lock()
	cs := tm.app.Configs
	var last app.BatchConfig
	last = *cs[len(cs)-1]
	eon := tm.app.EONCounter
	tm.mux.Unlock()
	k.Check(len(cs) == 2 && last.StartBatchIndex == conf.StartBatchIndex && last.ConfigIndex == uint64(idx) && last.Threshold == conf.Threshold && fmt.Sprint(last.Keypers) == fmt.Sprint(ks) &&
		last.ConfigContractAddress == m["ConfigContract"] && last.Started && !last.ValidatorsUpdated, "bootstrap", "after bootstrapping with config %d, %v, of the contract %s, shuttermint has %d configs, the last is %+v",
		idx, conf, m["ConfigContract"].Hex(), len(cs), last)
	k.Check(eon == 1, "bootstrap", "after bootstrapping there are %d eons", eon)
	k.Count("bootstrap: done")
	if r.Intn(2) == 0 {
		before := appState()
		res := boot(genesis[r.Intn(len(genesis))], more...)
		k.Check(appState() == before && res.code != 0, "bootstrap-again", "bootstrapping again: %s -> %s: %v", before, appState(), res)
		k.Count("bootstrap: again")
	}
	if r.Intn(3) == 0 {
		// a contract that takes no money doesn't get it
		a := addrOf(keys[0])
		w.give(a, ether(1))
		b := w.balance(a)
		res := w.run(nil, "prepare", "unfund", "-e", w.url(), "--to", m["ConfigContract"].Hex(), filepath.Join(dir, "keyper0", "config.toml"))
		b2 := w.balance(a)
		k.Check(res.code != 0 && len(res.sent) == 1, "revert-unnoticed", "unfund ends with success though its transaction reverts: %v", res)
		k.Check(w.balance(m["ConfigContract"]).Sign() == 0 && b.Cmp(b2) > 0 && new(big.Int).Sub(b, b2).Cmp(ether(0.1)) < 0, "unfund", "the balance was %s and is %s after a transfer that reverted: %v", b, b2, res)
		k.Count("unfund: reverts")
	}
	w.unfund(k, dir, keys)
	k.Eval(fmt.Sprint(n, nconf, idx, len(genesis), w.e.gasPrice), true)
}

// again runs prepare configs in a directory with configs. The files it finds there are in any state
// in which operators may have left them; afterwards they are what they were at first.
func (w *setupWorld) again(k *vt.K, dir string, files map[string][]byte, args []string, n int) {
	r := k.R
	a := args[:len(args):len(args)]
	m := n
	if r.Intn(2) == 0 {
		m = 1 + r.Intn(9)
		a = append(a, "-n", fmt.Sprint(m))
	}
	cfg := filepath.Join(dir, "config.json")
	now := map[string][]byte{}
	for p, b := range files {
		now[p] = b
	}
	what := "intact"
	switch r.Intn(5) {
	case 0, 1:
		what = "without config.json"
		must(os.Rename(cfg, filepath.Join(w.dir, "moved.json")))
		delete(now, cfg)
	case 2:
		what = "without some configs"
		for i := 0; i < n; i++ {
			if r.Intn(2) == 0 {
				p := filepath.Join(dir, fmt.Sprintf("keyper%d", i), "config.toml")
				must(os.Remove(p))
				delete(now, p)
			}
		}
	case 3:
		what = "changed"
		p := filepath.Join(dir, fmt.Sprintf("keyper%d", r.Intn(n)), "config.toml")
		now[p] = append([]byte("# mine\n"), now[p]...)
		if r.Intn(3) == 0 {
			now[p] = nil
		}
		must(os.WriteFile(p, now[p], 0o600))
	}
	hit := false
	for i := 0; i < m; i++ {
		if _, ok := now[filepath.Join(dir, fmt.Sprintf("keyper%d", i), "config.toml")]; ok {
			hit = true
		}
	}
	res := w.run(nil, a...)
	k.Check(!hit || res.code != 0, "configs", "prepare configs overwrites configs (%s): %v", what, res)
	for p, b := range now {
		b2, err := os.ReadFile(p)
		if hit || p != cfg {
			k.Check(err == nil && bytes.Equal(b, b2), "overwritten", "prepare configs overwrites %s (%s): %v", p, what, res)
		}
	}
	for p, b := range files {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, b, 0o600))
	}
	k.Count("configs: refused to overwrite")
	k.Seen("directories with configs", what)
}

// fund gives the keypers money.
func (w *setupWorld) fund(k *vt.K, cfgFile string, ks []common.Address) {
	r := k.R
	one, half := ether(1), ether(0.5)
	var bal []*big.Int
	for _, a := range ks {
		b := []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(half, big.NewInt(1)), half, new(big.Int).Add(half, big.NewInt(1)), one, ether(3), new(big.Int).Mul(big.NewInt(r.Int63n(gwei)), big.NewInt(gwei))}[r.Intn(8)]
		if b.Sign() > 0 {
			w.give(a, b)
		}
		bal = append(bal, b)
	}
	need := new(big.Int)
	todo := map[common.Address]*big.Int{}
	for i, b := range bal {
		if b.Cmp(half) < 0 {
			todo[ks[i]] = new(big.Int).Sub(one, b)
			need.Add(need, todo[ks[i]])
		}
	}
	w.e.gasPrice = int64(1+r.Intn(100)) * []int64{1, 7, gwei}[r.Intn(3)]
	price := new(big.Int).Div(new(big.Int).Mul(big.NewInt(w.e.gasPrice), big.NewInt(3)), big.NewInt(2))
	if r.Intn(3) == 0 && len(todo) > 0 {
		// a payer without enough money
		poor := keyOf(fmt.Sprint("poor", r.Int63()))
		w.give(addrOf(poor), new(big.Int).Div(need, big.NewInt(int64(2*len(todo)))))
		res := w.run(nil, "prepare", "fund", "--config", cfgFile, "-e", w.url(), "-k", keyHex(poor))
		k.Check(res.code != 0, "fund", "fund ends with success though the payer is poor: %v", res)
		k.Count("fund: no money")
		for i, a := range ks { // some may have got their part
			b := w.balance(a)
			if b.Cmp(bal[i]) != 0 {
				k.Check(todo[a] != nil && b.Cmp(one) == 0, "fund", "the balance of %s was %s and is %s", a.Hex(), bal[i], b)
				bal[i] = b
				delete(todo, a)
			}
		}
	}
	payer := keyOf(fmt.Sprint("payer", r.Int63()))
	w.give(addrOf(payer), ether(100))
	if r.Intn(2) == 0 { // with history
		tx, err := types.SignTx(types.NewTransaction(0, addrOf(w.rich), big.NewInt(1), 21000, big.NewInt(1), nil), w.e.signer(), payer)
		must(err)
		must(w.cl.SendTransaction(context.Background(), tx))
	}
	res := w.run(nil, "prepare", "fund", "--config", cfgFile, "-e", w.url(), "-k", keyHex(payer))
	if !k.Check(res.code == 0, "fund", "fund fails: %v", res) {
		return
	}
	for i, a := range ks {
		want := bal[i]
		if todo[a] != nil {
			want = one
		}
		b := w.balance(a)
		k.Check(b.Cmp(want) == 0, "fund", "keyper %d of %d has %s wei after fund, not %s; it had %s: %v", i, len(ks), b, want, bal[i], res)
	}
	k.Check(len(res.sent) == len(todo), "fund", "fund sends %d transactions for %d keypers", len(res.sent), len(todo))
	for _, tx := range res.sent {
		k.Check(tx.GasPrice().Cmp(price) == 0, "gas-price", "fund uses gas price %s, %d is suggested", tx.GasPrice(), w.e.gasPrice)
		k.Check(tx.To() != nil && todo[*tx.To()] != nil && todo[*tx.To()].Cmp(tx.Value()) == 0, "fund", "fund sends %s to %v", tx.Value(), tx.To())
	}
	k.Count("fund: done")
	if r.Intn(2) == 0 {
		res := w.run(nil, "prepare", "fund", "--config", cfgFile, "-e", w.url(), "-k", keyHex(payer))
		k.Check(res.code == 0 && len(res.sent) == 0, "fund", "fund, once more: %v", res)
		k.Count("fund: nothing to do")
	}
	if r.Intn(2) == 0 {
		res := w.run(nil, "prepare", "fund", "query", "--config", cfgFile, "-e", w.url())
		k.Check(res.code == 0 && len(res.sent) == 0, "fund-query", "fund query: %v", res)
		re := regexp.MustCompile(`(?m)^(\d+)\s+(0x[0-9a-fA-F]{40})\s+([0-9.]+)\s*$`)
		ms := re.FindAllStringSubmatch(res.out, -1)
		k.Check(len(ms) == len(ks), "fund-query", "fund query prints %s", res.out)
		sum := new(big.Int)
		for i, m := range ms {
			if i < len(ks) {
				b := w.balance(ks[i])
				sum.Add(sum, b)
				k.Check(m[1] == fmt.Sprint(i) && m[2] == ks[i].Hex() && near(m[3], b), "fund-query", "fund query prints %v for keyper %d with %s wei", m[1:], i, b)
			}
		}
		l := strings.Fields(res.out)
		k.Check(len(l) > 0 && near(l[len(l)-1], sum), "fund-query", "fund query prints the sum %s for %s wei", l[len(l)-1], sum)
		k.Count("fund: query")
	}
}

// fundContract funds keypers of which one is a contract that doesn't take money.
func (w *setupWorld) fundContract(k *vt.K, conf []byte, c common.Address) {
	r := k.R
	var jm map[string]interface{}
	must(json.Unmarshal(conf, &jm))
	ks := make([]string, 1+r.Intn(4))
	for i := range ks {
		ks[i] = randAddr(r).Hex()
	}
	p := r.Intn(len(ks))
	ks[p] = c.Hex()
	jm["Keypers"], jm["Threshold"] = ks, 1
	b, err := json.Marshal(jm)
	must(err)
	payer := keyOf(fmt.Sprint("payer", r.Int63()))
	w.give(addrOf(payer), ether(100))
	res := w.run(nil, "prepare", "fund", "--config", w.write("contract-keyper.json", b), "-e", w.url(), "-k", keyHex(payer))
	k.Check(res.code != 0, "revert-unnoticed", "fund ends with success though transaction %d of %d reverts: %v", p+1, len(ks), res)
	k.Check(w.balance(c).Sign() == 0 && len(res.sent) == len(ks), "fund", "fund sends %d transactions for %d keypers", len(res.sent), len(ks))
	for i, a := range ks {
		b := w.balance(common.HexToAddress(a))
		k.Check(i == p || b.Cmp(ether(1)) == 0, "fund", "keyper %d of %d has %s wei after fund, %d is a contract: %v", i, len(ks), b, p, res)
	}
	k.Count("fund: reverts")
}

// near tells whether a number of ethers with six digits is the given one.
func near(s string, wei *big.Int) bool {
	f, err := strconv.ParseFloat(s, 64)
	x, _ := new(big.Float).SetInt(wei).Float64()
	return err == nil && math.Abs(f-x/1e18) < 0.0000011
}

func (w *setupWorld) unfund(k *vt.K, dir string, keys []*ecdsa.PrivateKey) {
	r := k.R
	to := randAddr(r)
	w.e.gasPrice = int64(1+r.Intn(100)) * []int64{1, gwei}[r.Intn(2)]
	fee := new(big.Int).Mul(big.NewInt(21000), big.NewInt(w.e.gasPrice))
	var args []string
	want := new(big.Int)
	left := map[common.Address]*big.Int{}
	sends := 0
	for _, i := range r.Perm(len(keys)) {
		a := addrOf(keys[i])
		left[a] = w.balance(a)
		if r.Intn(4) == 0 {
			continue // not this one
		}
		if r.Intn(4) == 0 && w.e.gasPrice >= 2 { // make it poor
			amount := new(big.Int).Sub(w.balance(a), big.NewInt(21000))
			amount.Sub(amount, []*big.Int{new(big.Int), fee, new(big.Int).Add(fee, big.NewInt(1)), new(big.Int).Sub(fee, big.NewInt(1))}[r.Intn(4)])
			if amount.Sign() > 0 {
				n, err := w.cl.PendingNonceAt(context.Background(), a)
				must(err)
				tx, err := types.SignTx(types.NewTransaction(n, addrOf(w.rich), amount, 21000, big.NewInt(1), nil), w.e.signer(), keys[i])
				must(err)
				must(w.cl.SendTransaction(context.Background(), tx))
				w.mineAll()
				left[a] = w.balance(a)
			}
		}
		args = append(args, filepath.Join(dir, fmt.Sprintf("keyper%d", i), "config.toml"))
		if left[a].Cmp(fee) > 0 {
			want.Add(want, new(big.Int).Sub(left[a], fee))
			left[a] = new(big.Int)
			sends++
		} else {
			k.Count("unfund: skipped")
		}
	}
	base := []string{"prepare", "unfund", "-e", w.url(), "--to"}
	if r.Intn(2) == 0 {
		bad := []string{strings.ToLower(to.Hex()), to.Hex()[:41], "", to.Hex()[2:], "0x" + strings.ToUpper(to.Hex()[2:]), to.Hex() + "00"}[r.Intn(6)]
		if bad != to.Hex() && common.HexToAddress(bad).Hex() != bad {
			res := w.run(nil, append(append(base[:5:5], bad), args...)...)
			k.Check(res.code != 0 && len(res.sent) == 0, "unfund-receiver", "unfund sends to %q: %v", bad, res)
			k.Count("unfund: bad receiver")
		}
	}
	if r.Intn(2) == 0 {
		what, bad := badConfig(r, readAll(filepath.Join(dir, "keyper0", "config.toml")))
		if what != "http URL" && what != "negative multiplier" {
			f := w.write("bad.toml", bad)
			a := append(append([]string{}, args...), f)
			if r.Intn(4) == 0 {
				what = "no file"
				a[len(a)-1] = f + "x"
			}
			res := w.run(nil, append(append(base[:5:5], to.Hex()), a...)...)
			k.Check(res.code != 0 && len(res.sent) == 0, "unfund-config", "unfund with a bad config (%s): %v", what, res)
			k.Count("unfund: bad config")
		}
	}
	res := w.run(nil, append(append(base[:5:5], to.Hex()), args...)...)
	k.Check(res.code == 0, "unfund", "unfund fails: %v", res)
	b := w.balance(to)
	k.Check(b.Cmp(want) == 0, "unfund", "%s wei arrive, not %s: %v", b, want, res)
	for a, l := range left {
		b := w.balance(a)
		k.Check(b.Cmp(l) == 0, "unfund", "the balance of %s is %s, not %s: %v", a.Hex(), b, l, res)
	}
	k.Check(len(res.sent) == sends, "unfund", "unfund sends %d transactions, not %d", len(res.sent), sends)
	k.Count("unfund: done")
}

func readAll(p string) []byte {
	b, err := os.ReadFile(p)
	must(err)
	return b
}

// badConfig spoils a keyper's config file.
func badConfig(r *rand.Rand, b []byte) (string, []byte) {
	lines := strings.Split(string(b), "\n")
	find := func(n string) int {
		for i, l := range lines {
			if strings.HasPrefix(l, n) {
				return i
			}
		}
		panic(vt.InfraError("no " + n + " in the config"))
	}
	set := func(n, v string) { lines[find(n)] = n + " = " + v }
	drop := func(n string) { i := find(n); lines = append(lines[:i:i], lines[i+1:]...) }
	addr := []string{"BatcherContract", "ConfigContract", "DepositContract", "ExecutorContract", "KeyBroadcastContract", "KeyperSlasher"}[r.Intn(6)]
	old := strings.Split(lines[find(addr)], `"`)[1]
	key := []string{"SigningKey", "EncryptionKey", "ValidatorSeed"}[r.Intn(3)]
	num := []string{"DKGPhaseLength", "ExecutionStaggering", "MainChainFollowDistance"}[r.Intn(3)]
	var what string
	switch r.Intn(11) {
	case 0:
		what = "address without checksum"
		set(addr, `"`+strings.ToLower(old)+`"`)
	case 1:
		what = "bad address"
		set(addr, `"`+[]string{old[:41], old[2:], "", "x", old + "11"}[r.Intn(5)]+`"`)
	case 2:
		what = "bad key"
		set(key, `"`+[]string{"", "00", strings.Repeat("1", 62), strings.Repeat("1", 66), strings.Repeat("g", 64), "0x" + strings.Repeat("1", 64)}[r.Intn(6)]+`"`)
	case 3:
		key = key[:]
		if key == "ValidatorSeed" {
			key = "SigningKey"
		}
		what = "key out of range"
		set(key, `"`+[]string{strings.Repeat("0", 64), strings.Repeat("f", 64)}[r.Intn(2)]+`"`)
	case 4:
		what = "no " + key
		drop(key)
	case 5:
		what = "bad number"
		set(num, []string{"-1", `"x"`}[r.Intn(2)])
	case 6:
		what = "http URL"
		set("EthereumURL", `"http`+strings.TrimPrefix(strings.Split(lines[find("EthereumURL")], `"`)[1], "ws")+`"`)
	case 7:
		what = "negative multiplier"
		set("GasPriceMultiplier", "-0.5")
	case 8:
		what = "syntax"
		set(num, "")
	case 9:
		what = "bad multiplier"
		set("GasPriceMultiplier", `"much"`)
	case 10:
		what = "syntax"
		i := find(addr)
		lines[i] = lines[i][:len(lines[i])-1]
	}
	return what, []byte(strings.Join(lines, "\n"))
}

func randKeyperConfig(r *rand.Rand) *keyper.Config {
	small := func() uint64 {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return uint64(r.Int63())
		}
		return uint64(r.Intn(1000))
	}
	key := func() *ecdsa.PrivateKey {
		for {
			b := make([]byte, 32)
			r.Read(b)
			if r.Intn(4) == 0 {
				copy(b, make([]byte, 1+r.Intn(5)))
			}
			if k, err := crypto.ToECDSA(b); err == nil {
				return k
			}
		}
	}
	seed := make([]byte, 32)
	r.Read(seed)
	if r.Intn(4) == 0 {
		seed[0] = 0
	}
	a := func() common.Address {
		x := randAddr(r)
		if r.Intn(8) == 0 {
			x = common.Address{}
		}
		return x
	}
	return &keyper.Config{ShuttermintURL: fmt.Sprintf("http://h%d:%d", r.Intn(9), r.Intn(9999)), EthereumURL: fmt.Sprintf("wss://x:y@h%d:%d/a=b?c#d", r.Intn(9), r.Intn(9999)), DBDir: []string{"", "/a b/c", "x/y", "é"}[r.Intn(4)],
		SigningKey: key(), ValidatorKey: ed25519.NewKeyFromSeed(seed), EncryptionKey: ecies.ImportECDSA(key()), ConfigContractAddress: a(), BatcherContractAddress: a(), KeyBroadcastContractAddress: a(),
		ExecutorContractAddress: a(), DepositContractAddress: a(), KeyperSlasherAddress: a(), MainChainFollowDistance: small(), ExecutionStaggering: small(), DKGPhaseLength: small(),
		GasPriceMultiplier: []float64{0, 1, 1.5, r.Float64(), 1e-9 * r.Float64(), 100 * r.Float64()}[r.Intn(6)]}
}

func loadConfig(b []byte) (*keyper.Config, error) {
	v := viper.New()
	v.SetConfigType("toml")
	if err := v.ReadConfig(bytes.NewReader(b)); err != nil {
		return nil, err
	}
	c := &keyper.Config{}
	return c, c.Unmarshal(v)
}

func sameKey(a, b *ecdsa.PrivateKey) bool {
	return a != nil && b != nil && a.D.Cmp(b.D) == 0 && a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// tomlCase writes and reads configs.
func tomlCase(k *vt.K) {
	r := k.R
	c := randKeyperConfig(r)
	var b bytes.Buffer
	must(c.WriteTOML(&b))
	if r.Intn(2) == 0 {
		what, bad := badConfig(r, b.Bytes())
		if what == "http URL" || what == "negative multiplier" || what == "address without checksum" && strings.ToLower(string(bad)) == string(bad) {
			return
		}
		if bytes.Equal(bad, b.Bytes()) {
			return
		}
		if what == "address without checksum" {
			// the zero address is its own checksum
			if _, err := loadConfig(bad); err == nil && zeroAddress(b.Bytes(), bad) {
				return
			}
		}
		c2, err := loadConfig(bad)
		k.Check(err != nil, "bad-accepted", "a config with a %s is accepted: %s\n%+v", what, bad, c2)
		k.Count("malformed configs refused")
		k.Seen("malformed configs", what)
		k.Eval(string(bad), true)
		return
	}
	c2, err := loadConfig(b.Bytes())
	if !k.Check(err == nil, "round-trip", "a config that was written can't be read: %v\n%s", err, b.String()) {
		return
	}
	k.Check(sameKey(c.SigningKey, c2.SigningKey) && sameKey(c.EncryptionKey.ExportECDSA(), c2.EncryptionKey.ExportECDSA()) && bytes.Equal(c.ValidatorKey, c2.ValidatorKey), "round-trip", "the keys change:\n%s", b.String())
	x, y := *c, *c2
	x.SigningKey, x.EncryptionKey, x.ValidatorKey = nil, nil, nil
	y.SigningKey, y.EncryptionKey, y.ValidatorKey = nil, nil, nil
	k.Check(reflect.DeepEqual(x, y), "round-trip", "%+v is read as %+v:\n%s", x, y, b.String())
	k.Count("configs written and read")
	k.Eval(b.String(), true)
}

// zeroAddress tells whether a changed line is about the zero address.
func zeroAddress(a, b []byte) bool {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := range x {
		if i < len(y) && x[i] != y[i] {
			return strings.Contains(x[i], common.Address{}.Hex())
		}
	}
	return true
}

// keyperConfigCase starts the keyper with good and bad configs.
func keyperConfigCase(k *vt.K) {
	r := k.R
	w := newSetupWorld(k)
	defer w.close()
	tm := newTmSim([]common.Address{addrOf(w.rich)}, 1, "")
	tm.block(nil)
	tmn := newTmNode(tm, nil)
	defer tmn.close()
	c := randKeyperConfig(r)
	c.EthereumURL, c.ShuttermintURL, c.DBDir = w.url(), "http://"+tmn.addr(), ""
	var b bytes.Buffer
	must(c.WriteTOML(&b))
	good := r.Intn(3) == 0
	what, content := "nothing", b.Bytes()
	if !good {
		what, content = badConfig(r, content)
		if zeroAddress(b.Bytes(), content) && what == "address without checksum" {
			return
		}
	}
	f := w.write("k/config.toml", content)
	if !good && r.Intn(10) == 0 {
		what, f = "no file", f+"x"
	}
	var env []string
	if good && r.Intn(2) == 0 { // a value from the environment has precedence
		c2 := randKeyperConfig(r)
		c.SigningKey = c2.SigningKey
		env = append(env, "KEYPER_SIGNINGKEY="+keyHex(c2.SigningKey))
	}
	cmd := exec.Command(os.Getenv("VERIF_SHUTTERMINT"), "keyper", "--config", f)
	cmd.Dir = w.dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + w.dir, "GOTRACEBACK=all"}, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var mux sync.Mutex
	var out bytes.Buffer
	lw := writerFunc(func(p []byte) (int, error) { mux.Lock(); defer mux.Unlock(); return out.Write(p) })
	cmd.Stdout, cmd.Stderr = lw, lw
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	text := func() string { mux.Lock(); defer mux.Unlock(); return out.String() }
	loaded := func() bool { return strings.Contains(text(), "Loaded state") }
	limit := time.Now().Add(60 * time.Second)
	var err error
	ended := false
	for !ended && !loaded() && time.Now().Before(limit) {
		select {
		case err = <-done:
			ended = true
		case <-time.After(20 * time.Millisecond):
		}
	}
	if good {
		k.Check(!ended && loaded(), "good-refused", "the keyper doesn't start: %v: %s\n%s", err, tail(text(), 2000), content)
		k.Check(strings.Contains(text(), c.Address().Hex()), "other-key", "the keyper doesn't use the key of %s: %s", c.Address().Hex(), tail(text(), 2000))
		k.Count("keyper: accepted")
	} else {
		k.Check(ended && err != nil, "bad-accepted", "the keyper starts with a bad config (%s): %s\n%s", what, tail(text(), 2000), content)
		k.Check(!loaded(), "bad-accepted", "the keyper starts with a bad config (%s): %s", what, tail(text(), 2000))
		_, serr := os.Stat(filepath.Join(w.dir, "k", "state.gob"))
		k.Check(os.IsNotExist(serr), "bad-state", "the keyper leaves a state with a bad config (%s)", what)
		k.Check(!strings.Contains(text(), "panic: "), "crash", "the keyper crashes with a bad config (%s): %s\n%s", what, tail(text(), 4000), content)
		k.Count("keyper: refused")
		k.Seen("bad configs given to the keyper", what)
	}
	if !ended {
		_ = cmd.Process.Signal(syscall.SIGKILL)
		<-done
	}
	k.Count("commands run")
	k.Eval(what+string(content), !good)
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

// searchCase compares what txsearch and show print with the chain.
func searchCase(k *vt.K) {
	r := k.R
	tm, evs := randShutterChain(r)
	for i := 0; i < 2+r.Intn(3); i++ {
		tm.addResults(nil)
	}
	tmn := newTmNode(tm, nil)
	defer tmn.close()
	dir := filepath.Join(k.C.Scratch, fmt.Sprintf("search-%d", k.Idx))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	url := "http://" + tmn.addr()
	lo, hi := int64(0), tm.committed()
	args := []string{"txsearch", "-s", url}
	if r.Intn(2) == 0 {
		lo = r.Int63n(hi + 1)
		args = append(args, "--from-height", fmt.Sprint(lo))
	}
	if r.Intn(2) == 0 {
		hi = lo + r.Int63n(hi-lo+2)
		args = append(args, "--to-height", fmt.Sprint(hi))
	}
	if len(args) > 3 {
		k.Count("txsearch: range")
	}
	res := shuttermint(k, dir, nil, args...)
	if !k.Check(res.code == 0, "txsearch", "txsearch fails: %v", res) {
		return
	}
	var want []string
	bad := 0
	type at struct {
		h int64
		n int
	}
	next := map[int64][]obsEvent{}
	for _, e := range evs {
		next[e.height] = append(next[e.height], e)
	}
	ntx := 0
	for i, tx := range tm.txs {
		_ = i
		var mine []obsEvent
		n := len(tx.res.Events)
		mine, next[tx.height] = next[tx.height][:n], next[tx.height][n:]
		if tx.height < lo || tx.height > hi {
			continue
		}
		ntx++
		want = append(want, fmt.Sprintf("==> TX height=%d hash=%X size=%d", tx.height, sha256.Sum256(tx.raw), len(tx.raw)))
		for _, e := range mine {
			if e.ev == nil {
				bad++
				continue
			}
			want = append(want, fmt.Sprintf("%T{Height:%d", e.ev, tx.height))
		}
	}
	if ntx > 100 {
		k.Count("txsearch: more than a page")
	}
	if ntx > 0 && ntx%100 == 0 {
		k.Count("txsearch: full pages")
	}
	var got []string
	re := regexp.MustCompile(`^==> TX height=(\d+) hash=([0-9A-F]*) size=(\d+)$`)
	re2 := regexp.MustCompile(`^    &?(shutterevents\.\w+)\{.*Height:\s*(0x[0-9a-f]+|-?\d+)`)
	for _, l := range strings.Split(strings.TrimSpace(res.out), "\n") {
		if l == "" {
			continue
		}
		if m := re.FindStringSubmatch(l); m != nil {
			got = append(got, fmt.Sprintf("==> TX height=%s hash=%s size=%s", m[1], m[2], m[3]))
		} else if m := re2.FindStringSubmatch("    " + strings.TrimLeft(l, " ")); m != nil {
			got = append(got, fmt.Sprintf("%s{Height:%s", m[1], m[2]))
		} else {
			got = append(got, "?"+l)
		}
	}
	if len(got) != len(want) || strings.Join(got, "\n") != strings.Join(want, "\n") {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		g, wn := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			wn = want[i]
		}
		k.Failf("txsearch", "heights %d to %d, %d transactions: line %d is %q, not %q (%d lines, not %d): %s", lo, hi, ntx, i, g, wn, len(got), len(want), tail(res.stderr, 500))
	}
	nb := strings.Count(res.stderr, "malformed event")
	k.Check(nb == bad, "txsearch", "txsearch reports %d malformed events, there are %d: %s", nb, bad, tail(res.stderr, 1000))
	if bad > 0 {
		k.Count("malformed events")
	}
	k.C.Count("lines of txsearch compared", int64(len(want)))

	// show
	h := tm.committed()
	args = []string{"show", "-s", url}
	if r.Intn(2) == 0 {
		h = 1 + r.Int63n(h)
		args = append(args, "--height", fmt.Sprint(h))
	}
	res = shuttermint(k, dir, nil, args...)
	k.Check(res.code == 0, "show", "show fails: %v", res)
	m := regexp.MustCompile(`(?m)^\s+CurrentBlock:\s+(\d+),`).FindStringSubmatch(res.out)
	k.Check(m != nil && m[1] == fmt.Sprint(h), "show", "show prints height %v, not %d: %s", m, h, tail(res.out, 1000))
	mod := modelAt(evs, h)
	for _, e := range mod.eons {
		k.Check(regexp.MustCompile(fmt.Sprintf(`(?m)^\s+Eon:\s+(0x%x|%d),`, e.num, e.num)).MatchString(res.out), "show", "show doesn't print eon %d: %s", e.num, tail(res.out, 2000))
	}
	k.Count("show")
	k.Eval(strings.Join(want, "\n"), ntx > 0)
}
