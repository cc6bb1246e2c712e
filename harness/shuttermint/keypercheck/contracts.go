package main

import (
	"context"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
)

// ethWorld is an ethSim with all of shutter's contracts.
type ethWorld struct {
	*ethSim
	cl     *ethclient.Client
	owner  *ecdsa.PrivateKey
	addr   contractAddrs
	cfg    *contract.ConfigContract
	bcast  *contract.KeyBroadcastContract
	bat    *contract.BatcherContract
	exe    *contract.ExecutorContract
	token  *contract.TestDepositTokenContract
	dep    *contract.DepositContract
	slash  *contract.KeyperSlasher
	target *contract.MockTargetContract
}

type contractAddrs struct {
	config, bcast, fee, batcher, executor, token, deposit, slasher, target common.Address
}

const simHeadsUp, simAppealBlocks = 2, 8

// key derives a private key from a name.
func keyOf(name string) *ecdsa.PrivateKey {
	for i := 0; ; i++ {
		k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("%s/%d", name, i))))
		if err == nil {
			return k
		}
	}
}

func addrOf(k *ecdsa.PrivateKey) common.Address { return crypto.PubkeyToAddress(k.PublicKey) }

func (w *ethWorld) auth(k *ecdsa.PrivateKey) *bind.TransactOpts {
	a, err := bind.NewKeyedTransactorWithChainID(k, w.ethSim.cfg.ChainID)
	must(err)
	w.mux.Lock()
	a.Nonce = new(big.Int).SetUint64(w.pendingNonce(addrOf(k)))
	w.mux.Unlock()
	a.GasLimit = 6_000_000
	a.GasPrice = big.NewInt(1)
	return a
}

// newEthWorld deploys the contracts in the first block(s) of a new chain.
func newEthWorld(funded ...*ecdsa.PrivateKey) *ethWorld {
	owner := keyOf("owner")
	as := []common.Address{addrOf(owner), erc1820.DeployerAddress}
	for _, k := range funded {
		as = append(as, addrOf(k))
	}
	w := &ethWorld{ethSim: newEthSim(as), owner: owner}
	w.cl = w.client()
	must(w.cl.SendTransaction(context.Background(), erc1820.DeploymentTransaction))
	w.mineOK()
	var err error
	w.addr.config, _, w.cfg, err = contract.DeployConfigContract(w.auth(owner), w.cl, simHeadsUp)
	must(err)
	w.addr.bcast, _, w.bcast, err = contract.DeployKeyBroadcastContract(w.auth(owner), w.cl, w.addr.config)
	must(err)
	w.addr.fee, _, _, err = contract.DeployFeeBankContract(w.auth(owner), w.cl)
	must(err)
	w.addr.batcher, _, w.bat, err = contract.DeployBatcherContract(w.auth(owner), w.cl, w.addr.config, w.addr.fee)
	must(err)
	w.addr.token, _, w.token, err = contract.DeployTestDepositTokenContract(w.auth(owner), w.cl)
	must(err)
	w.addr.deposit, _, w.dep, err = contract.DeployDepositContract(w.auth(owner), w.cl, w.addr.token)
	must(err)
	w.addr.executor, _, w.exe, err = contract.DeployExecutorContract(w.auth(owner), w.cl, w.addr.config, w.addr.batcher, w.addr.deposit)
	must(err)
	w.addr.slasher, _, w.slash, err = contract.DeployKeyperSlasher(w.auth(owner), w.cl, big.NewInt(simAppealBlocks), w.addr.config, w.addr.executor, w.addr.deposit)
	must(err)
	w.addr.target, _, w.target, err = contract.DeployMockTargetContract(w.auth(owner), w.cl)
	must(err)
	w.mineOK()
	return w
}

// mineOK mines everything and requires success.
func (w *ethWorld) mineOK() {
	b := w.mine(nil)
	for i, r := range b.receipts {
		if r.Status != types.ReceiptStatusSuccessful {
			must(fmt.Errorf("transaction %d of block %d of the simulated chain fails", i, b.header.Number))
		}
	}
}

func (w *ethWorld) caller(k *ecdsa.PrivateKey, cl *ethclient.Client) *contract.Caller {
	cfg, err := contract.NewConfigContract(w.addr.config, cl)
	must(err)
	bc, err := contract.NewKeyBroadcastContract(w.addr.bcast, cl)
	must(err)
	bat, err := contract.NewBatcherContract(w.addr.batcher, cl)
	must(err)
	exe, err := contract.NewExecutorContract(w.addr.executor, cl)
	must(err)
	dep, err := contract.NewDepositContract(w.addr.deposit, cl)
	must(err)
	sl, err := contract.NewKeyperSlasher(w.addr.slasher, cl)
	must(err)
	c := contract.NewCaller(cl, k, cfg, bc, bat, exe, dep, sl)
	return &c
}

// tx sends a transaction of the key's owner, f makes it.
func (w *ethWorld) tx(k *ecdsa.PrivateKey, f func(a *bind.TransactOpts) (*types.Transaction, error)) common.Hash {
	t, err := f(w.auth(k))
	must(err)
	return t.Hash()
}

// status tells whether a transaction was mined and succeeded.
func (w *ethWorld) status(h common.Hash) (mined, ok bool) {
	w.mux.Lock()
	defer w.mux.Unlock()
	b, i := w.find(h)
	if b == nil {
		return false, false
	}
	return true, b.receipts[i].Status == types.ReceiptStatusSuccessful
}

// setNext sends the transactions that make bc the next config, and schedules it if wanted.
func (w *ethWorld) setNext(bc contract.BatchConfig, schedule bool) common.Hash {
	o := w.owner
	cc := w.cfg
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetStartBatchIndex(a, bc.StartBatchIndex)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetStartBlockNumber(a, bc.StartBlockNumber)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetThreshold(a, bc.Threshold)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetBatchSpan(a, bc.BatchSpan)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetBatchSizeLimit(a, bc.BatchSizeLimit)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTransactionSizeLimit(a, bc.TransactionSizeLimit)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTransactionGasLimit(a, bc.TransactionGasLimit)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetFeeReceiver(a, bc.FeeReceiver)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTargetAddress(a, bc.TargetAddress)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetTargetFunctionSelector(a, bc.TargetFunctionSelector)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return cc.NextConfigSetExecutionTimeout(a, bc.ExecutionTimeout)
	})
	w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) { return cc.NextConfigRemoveKeypers(a, 1000) })
	h := w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) { return cc.NextConfigAddKeypers(a, bc.Keypers) })
	if schedule {
		h = w.tx(o, func(a *bind.TransactOpts) (*types.Transaction, error) { return cc.ScheduleNextConfig(a) })
	}
	return h
}

// targetSelector is the selector of MockTargetContract's function call.
func targetSelector() (s [4]byte) {
	copy(s[:], crypto.Keccak256([]byte("call(bytes)")))
	return
}

// deposit sends tokens to the deposit contract.
func (w *ethWorld) deposit(k *ecdsa.PrivateKey, amount int64, delay uint64) common.Hash {
	data := common.LeftPadBytes(new(big.Int).SetUint64(delay).Bytes(), 32)
	return w.tx(k, func(a *bind.TransactOpts) (*types.Transaction, error) {
		return w.token.Send(a, w.addr.deposit, big.NewInt(amount), data)
	})
}

func isRevert(err error) bool { return err != nil && strings.Contains(err.Error(), "revert") }

func addrs(ks []*ecdsa.PrivateKey) (r []common.Address) {
	for _, k := range ks {
		r = append(r, addrOf(k))
	}
	return
}
