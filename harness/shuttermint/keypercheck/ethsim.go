package main

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"net"
	"sort"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/eth/filters"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

func must(err error) {
	if err != nil {
		panic(vt.InfraError(fmt.Sprintf("%+v", err)))
	}
}

// ethSim is an ethereum node: a chain of blocks executed by go-ethereum's EVM behind go-ethereum's
// RPC server. Nothing happens by itself, blocks are mined on demand.
type ethSim struct {
	mux     sync.Mutex
	db      state.Database
	cfg     *params.ChainConfig
	blocks  []*ethBlock
	pool    []*types.Transaction
	srv     *rpc.Server
	syncing bool
	// fault returns an error to give instead of an answer to the named method.
	fault func(method string) error
	// estimate may refuse to estimate the gas of a call.
	estimate func(to common.Address, data []byte) error
	// accepted is called for every transaction that enters the pool.
	accepted func(tx *types.Transaction)
	calls    map[string]int
	sent     []sentTx
	subs     map[*ethSub]bool
	// auto mines a block for every transaction
	rejectNonceGaps bool
	gasPrice        int64 // 0: 1, -1: 0
	checkFunds      bool  // refuse transactions whose sender can't pay
}

type sentTx struct {
	from common.Address
	tx   *types.Transaction
}

type ethBlock struct {
	header   *types.Header
	hash     common.Hash
	root     common.Hash
	txs      []*types.Transaction
	receipts []*types.Receipt
}

type ethSub struct{ ch chan *types.Header }

const ethGasLimit = 200_000_000

var coinbase = common.HexToAddress("0x00000000000000000000000000000000c01ba5e0")

func newEthSim(funded []common.Address, codes ...map[common.Address][]byte) *ethSim {
	cfg := *params.AllEthashProtocolChanges
	cfg.LondonBlock = nil
	e := &ethSim{db: state.NewDatabase(rawdb.NewMemoryDatabase()), cfg: &cfg, calls: map[string]int{}, subs: map[*ethSub]bool{}}
	st, err := state.New(common.Hash{}, e.db, nil)
	must(err)
	for _, a := range funded {
		st.SetBalance(a, new(big.Int).Lsh(big.NewInt(1), 100))
	}
	for _, m := range codes {
		for a, c := range m {
			st.SetCode(a, c)
		}
	}
	root, err := st.Commit(true)
	must(err)
	h := &types.Header{Number: new(big.Int), Root: root, GasLimit: ethGasLimit, Time: 1600000000, Difficulty: big.NewInt(1),
		UncleHash: types.EmptyUncleHash, TxHash: types.EmptyRootHash, ReceiptHash: types.EmptyRootHash}
	e.blocks = []*ethBlock{{header: h, hash: h.Hash(), root: root}}
	e.srv = rpc.NewServer()
	must(e.srv.RegisterName("eth", &ethAPI{e: e}))
	return e
}

func (e *ethSim) client() *ethclient.Client { return ethclient.NewClient(rpc.DialInProc(e.srv)) }

// session is a client and a function that ends its connection and waits for the node to be done
// with its requests.
func (e *ethSim) session() (*ethclient.Client, func(limit time.Duration) bool) {
	a, b := net.Pipe()
	served := make(chan struct{})
	go func() {
		e.srv.ServeCodec(rpc.NewCodec(a), 0)
		close(served)
	}()
	c, err := rpc.DialIO(context.Background(), b, b)
	must(err)
	return ethclient.NewClient(c), func(limit time.Duration) bool {
		b.Close()
		c.Close()
		select {
		case <-served:
			return true
		case <-time.After(limit):
			return false
		}
	}
}

func (e *ethSim) close() { e.srv.Stop() }

func (e *ethSim) poolSize() int {
	e.mux.Lock()
	defer e.mux.Unlock()
	return len(e.pool)
}

func (e *ethSim) head() uint64 {
	e.mux.Lock()
	defer e.mux.Unlock()
	return uint64(len(e.blocks) - 1)
}

func (e *ethSim) signer() types.Signer { return types.LatestSigner(e.cfg) }

func (e *ethSim) nextHeader() *types.Header {
	p := e.blocks[len(e.blocks)-1]
	return &types.Header{ParentHash: p.hash, Number: new(big.Int).Add(p.header.Number, big.NewInt(1)), GasLimit: ethGasLimit,
		Time: p.header.Time + 13, Difficulty: big.NewInt(1), UncleHash: types.EmptyUncleHash, TxHash: types.EmptyRootHash,
		ReceiptHash: types.EmptyRootHash, Coinbase: coinbase}
}

// mine makes a block from those transactions of the pool that pick selects (nil: all).
func (e *ethSim) mine(pick func(i int, tx *types.Transaction) bool) *ethBlock {
	e.mux.Lock()
	defer e.mux.Unlock()
	var sel, rest []*types.Transaction
	for i, tx := range e.pool {
		if pick == nil || pick(i, tx) {
			sel = append(sel, tx)
		} else {
			rest = append(rest, tx)
		}
	}
	h := e.nextHeader()
	st, err := state.New(e.blocks[len(e.blocks)-1].root, e.db, nil)
	must(err)
	b := &ethBlock{header: h}
	gp := new(core.GasPool).AddGas(ethGasLimit)
	var used uint64
	for _, tx := range sel {
		st.Prepare(tx.Hash(), len(b.txs))
		snap := st.Snapshot()
		r, err := core.ApplyTransaction(e.cfg, nil, &coinbase, gp, st, h, tx, &used, vm.Config{})
		if err != nil {
			st.RevertToSnapshot(snap)
			if errors.Is(err, core.ErrNonceTooHigh) {
				rest = append(rest, tx) // wait for the gap to close
			}
			continue
		}
		b.txs = append(b.txs, tx)
		b.receipts = append(b.receipts, r)
	}
	e.pool = rest
	h.GasUsed = used
	root, err := st.Commit(true)
	must(err)
	h.Root, b.root = root, root
	b.hash = h.Hash()
	idx := uint(0)
	for i, r := range b.receipts {
		r.BlockHash = b.hash
		if r.Logs == nil {
			r.Logs = []*types.Log{}
		}
		r.TransactionIndex = uint(i)
		for _, l := range r.Logs {
			l.BlockHash, l.BlockNumber, l.TxIndex, l.Index = b.hash, h.Number.Uint64(), uint(i), idx
			idx++
		}
	}
	e.blocks = append(e.blocks, b)
	for s := range e.subs {
		select {
		case s.ch <- h:
		default:
		}
	}
	return b
}

// reorg drops the last n blocks. Their transactions return to the pool if keep says so.
func (e *ethSim) reorg(n int, keep func(*types.Transaction) bool) {
	e.mux.Lock()
	defer e.mux.Unlock()
	var back []*types.Transaction
	for ; n > 0 && len(e.blocks) > 1; n-- {
		b := e.blocks[len(e.blocks)-1]
		e.blocks = e.blocks[:len(e.blocks)-1]
		for _, tx := range b.txs {
			if keep == nil || keep(tx) {
				back = append(back, tx)
			}
		}
	}
	e.pool = append(back, e.pool...)
	sort.SliceStable(e.pool, func(i, j int) bool { return e.pool[i].Nonce() < e.pool[j].Nonce() })
}

func (e *ethSim) block(n uint64) *ethBlock {
	if n >= uint64(len(e.blocks)) {
		return nil
	}
	return e.blocks[n]
}

func (e *ethSim) resolve(n rpc.BlockNumber) *ethBlock {
	switch n {
	case rpc.LatestBlockNumber, rpc.PendingBlockNumber:
		return e.blocks[len(e.blocks)-1]
	case rpc.EarliestBlockNumber:
		return e.blocks[0]
	}
	return e.block(uint64(n))
}

type ethAPI struct {
	e      *ethSim
	called func(method string)
}

func (a *ethAPI) enter(method string) (func(), error) {
	a.e.mux.Lock()
	a.e.calls[method]++
	if a.called != nil {
		a.called(method)
	}
	f := a.e.fault
	a.e.mux.Unlock()
	if f != nil {
		if err := f(method); err != nil {
			return nil, err
		}
	}
	a.e.mux.Lock()
	return a.e.mux.Unlock, nil
}

func (a *ethAPI) ChainId() (*hexutil.Big, error) {
	done, err := a.enter("chainId")
	if err != nil {
		return nil, err
	}
	defer done()
	return (*hexutil.Big)(a.e.cfg.ChainID), nil
}

func (a *ethAPI) BlockNumber() (hexutil.Uint64, error) {
	done, err := a.enter("blockNumber")
	if err != nil {
		return 0, err
	}
	defer done()
	return hexutil.Uint64(len(a.e.blocks) - 1), nil
}

func (a *ethAPI) Syncing() (interface{}, error) {
	done, err := a.enter("syncing")
	if err != nil {
		return nil, err
	}
	defer done()
	if a.e.syncing {
		n := hexutil.Uint64(len(a.e.blocks))
		return map[string]interface{}{"startingBlock": hexutil.Uint64(0), "currentBlock": n, "highestBlock": n + 100, "pulledStates": hexutil.Uint64(0), "knownStates": hexutil.Uint64(0)}, nil
	}
	return false, nil
}

func (a *ethAPI) GasPrice() (*hexutil.Big, error) {
	done, err := a.enter("gasPrice")
	if err != nil {
		return nil, err
	}
	defer done()
	if a.e.gasPrice == -1 {
		return (*hexutil.Big)(new(big.Int)), nil
	}
	if a.e.gasPrice != 0 {
		return (*hexutil.Big)(big.NewInt(a.e.gasPrice)), nil
	}
	return (*hexutil.Big)(big.NewInt(1)), nil
}

func (a *ethAPI) GetBalance(addr common.Address, n rpc.BlockNumber) (*hexutil.Big, error) {
	done, err := a.enter("getBalance")
	if err != nil {
		return nil, err
	}
	defer done()
	b := a.e.resolve(n)
	if b == nil {
		return nil, errors.New("header not found")
	}
	st, err := state.New(b.root, a.e.db, nil)
	must(err)
	return (*hexutil.Big)(st.GetBalance(addr)), nil
}

func (a *ethAPI) GetBlockByNumber(n rpc.BlockNumber, _ bool) (*types.Header, error) {
	done, err := a.enter("getBlockByNumber")
	if err != nil {
		return nil, err
	}
	defer done()
	b := a.e.resolve(n)
	if b == nil {
		return nil, nil
	}
	return b.header, nil
}

type callArgs struct {
	From     *common.Address `json:"from"`
	To       *common.Address `json:"to"`
	Gas      *hexutil.Uint64 `json:"gas"`
	GasPrice *hexutil.Big    `json:"gasPrice"`
	Value    *hexutil.Big    `json:"value"`
	Data     *hexutil.Bytes  `json:"data"`
}

type revertError struct {
	error
	data string
}

func (e *revertError) ErrorCode() int         { return 3 }
func (e *revertError) ErrorData() interface{} { return e.data }

// run executes a call on top of b, in the block after it if pending.
func (e *ethSim) run(b *ethBlock, args callArgs, pending bool) ([]byte, uint64, error) {
	st, err := state.New(b.root, e.db, nil)
	must(err)
	h := b.header
	if pending {
		h = e.nextHeader()
	}
	var from common.Address
	if args.From != nil {
		from = *args.From
	}
	gas := uint64(ethGasLimit / 2)
	if args.Gas != nil && *args.Gas != 0 {
		gas = uint64(*args.Gas)
	}
	value := new(big.Int)
	if args.Value != nil {
		value = args.Value.ToInt()
	}
	var data []byte
	if args.Data != nil {
		data = *args.Data
	}
	msg := types.NewMessage(from, args.To, st.GetNonce(from), value, gas, new(big.Int), new(big.Int), new(big.Int), data, nil, false)
	st.AddBalance(from, new(big.Int).Lsh(big.NewInt(1), 120))
	evm := vm.NewEVM(core.NewEVMBlockContext(h, nil, &coinbase), core.NewEVMTxContext(msg), st, e.cfg, vm.Config{NoBaseFee: true})
	res, err := core.ApplyMessage(evm, msg, new(core.GasPool).AddGas(gas+1_000_000))
	if err != nil {
		return nil, 0, err
	}
	if len(res.Revert()) > 0 {
		reason, e2 := abi.UnpackRevert(res.Revert())
		err := errors.New("execution reverted")
		if e2 == nil {
			err = fmt.Errorf("execution reverted: %v", reason)
		}
		return nil, 0, &revertError{err, hexutil.Encode(res.Revert())}
	}
	if res.Err != nil {
		return nil, 0, res.Err
	}
	return res.Return(), res.UsedGas, nil
}

func (a *ethAPI) Call(args callArgs, n rpc.BlockNumber) (hexutil.Bytes, error) {
	done, err := a.enter("call")
	if err != nil {
		return nil, err
	}
	defer done()
	b := a.e.resolve(n)
	if b == nil {
		return nil, errors.New("header not found")
	}
	out, _, err := a.e.run(b, args, false)
	return out, err
}

func (a *ethAPI) EstimateGas(args callArgs) (hexutil.Uint64, error) {
	done, err := a.enter("estimateGas")
	if err != nil {
		return 0, err
	}
	defer done()
	if a.e.estimate != nil && args.To != nil && args.Data != nil {
		if err := a.e.estimate(*args.To, *args.Data); err != nil {
			return 0, err
		}
	}
	_, used, err := a.e.run(a.e.blocks[len(a.e.blocks)-1], args, true)
	return hexutil.Uint64(used*2 + 100_000), err
}

func (a *ethAPI) GetCode(addr common.Address, n rpc.BlockNumber) (hexutil.Bytes, error) {
	done, err := a.enter("getCode")
	if err != nil {
		return nil, err
	}
	defer done()
	b := a.e.resolve(n)
	if b == nil {
		return nil, errors.New("header not found")
	}
	st, err := state.New(b.root, a.e.db, nil)
	must(err)
	return st.GetCode(addr), nil
}

func (e *ethSim) pendingNonce(addr common.Address) uint64 {
	st, err := state.New(e.blocks[len(e.blocks)-1].root, e.db, nil)
	must(err)
	n := st.GetNonce(addr)
	have := map[uint64]bool{}
	for _, tx := range e.pool {
		if from, err := types.Sender(e.signer(), tx); err == nil && from == addr {
			have[tx.Nonce()] = true
		}
	}
	for have[n] {
		n++
	}
	return n
}

func (a *ethAPI) GetTransactionCount(addr common.Address, n rpc.BlockNumber) (hexutil.Uint64, error) {
	done, err := a.enter("getTransactionCount")
	if err != nil {
		return 0, err
	}
	defer done()
	if n == rpc.PendingBlockNumber {
		return hexutil.Uint64(a.e.pendingNonce(addr)), nil
	}
	b := a.e.resolve(n)
	if b == nil {
		return 0, errors.New("header not found")
	}
	st, err := state.New(b.root, a.e.db, nil)
	must(err)
	return hexutil.Uint64(st.GetNonce(addr)), nil
}

func (a *ethAPI) SendRawTransaction(raw hexutil.Bytes) (common.Hash, error) {
	done, err := a.enter("sendRawTransaction")
	if err != nil {
		return common.Hash{}, err
	}
	defer done()
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(raw); err != nil {
		return common.Hash{}, err
	}
	from, err := types.Sender(a.e.signer(), tx)
	if err != nil {
		return common.Hash{}, err
	}
	st, err := state.New(a.e.blocks[len(a.e.blocks)-1].root, a.e.db, nil)
	must(err)
	if tx.Nonce() < st.GetNonce(from) {
		return common.Hash{}, errors.New("nonce too low")
	}
	if a.e.checkFunds && st.GetBalance(from).Cmp(tx.Cost()) < 0 {
		return common.Hash{}, errors.New("insufficient funds for gas * price + value")
	}
	for _, p := range a.e.pool {
		if p.Hash() == tx.Hash() {
			return common.Hash{}, errors.New("already known")
		}
		if f, err := types.Sender(a.e.signer(), p); err == nil && f == from && p.Nonce() == tx.Nonce() {
			return common.Hash{}, errors.New("replacement transaction underpriced")
		}
	}
	a.e.pool = append(a.e.pool, tx)
	a.e.sent = append(a.e.sent, sentTx{from, tx})
	if a.e.accepted != nil {
		a.e.accepted(tx)
	}
	return tx.Hash(), nil
}

func (e *ethSim) find(h common.Hash) (*ethBlock, int) {
	for i := len(e.blocks) - 1; i >= 0; i-- {
		for j, tx := range e.blocks[i].txs {
			if tx.Hash() == h {
				return e.blocks[i], j
			}
		}
	}
	return nil, 0
}

func (a *ethAPI) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
	done, err := a.enter("getTransactionReceipt")
	if err != nil {
		return nil, err
	}
	defer done()
	b, i := a.e.find(h)
	if b == nil {
		return nil, nil
	}
	return b.receipts[i], nil
}

func (a *ethAPI) GetTransactionByHash(h common.Hash) (*types.Transaction, error) {
	done, err := a.enter("getTransactionByHash")
	if err != nil {
		return nil, err
	}
	defer done()
	b, i := a.e.find(h)
	if b == nil {
		for _, tx := range a.e.pool {
			if tx.Hash() == h {
				return tx, nil
			}
		}
		return nil, nil
	}
	return b.txs[i], nil
}

// logs returns the logs of the given blocks that match.
func (e *ethSim) logs(from, to uint64, addrs []common.Address, topics [][]common.Hash) []*types.Log {
	res := []*types.Log{}
	for n := from; n <= to && n < uint64(len(e.blocks)); n++ {
		for _, r := range e.blocks[n].receipts {
			for _, l := range r.Logs {
				ok := len(addrs) == 0
				for _, a := range addrs {
					ok = ok || a == l.Address
				}
				for i, alt := range topics {
					if i >= len(l.Topics) {
						ok = ok && len(alt) == 0
						if len(alt) == 0 {
							ok = false // a position beyond the log's topics never matches
						}
						continue
					}
					m := len(alt) == 0
					for _, t := range alt {
						m = m || t == l.Topics[i]
					}
					ok = ok && m
				}
				if ok {
					res = append(res, l)
				}
			}
		}
	}
	return res
}

func (a *ethAPI) GetLogs(c filters.FilterCriteria) ([]*types.Log, error) {
	done, err := a.enter("getLogs")
	if err != nil {
		return nil, err
	}
	defer done()
	if c.BlockHash != nil {
		return nil, errors.New("not supported")
	}
	from, to := uint64(len(a.e.blocks)-1), uint64(len(a.e.blocks)-1)
	if c.FromBlock != nil && c.FromBlock.Sign() >= 0 {
		from = c.FromBlock.Uint64()
	}
	if c.ToBlock != nil && c.ToBlock.Sign() >= 0 {
		to = c.ToBlock.Uint64()
	}
	return a.e.logs(from, to, c.Addresses, c.Topics), nil
}

// NewHeads serves eth_subscribe("newHeads").
func (a *ethAPI) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
	notifier, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	if a.called != nil {
		a.called("newHeads")
	}
	sub := notifier.CreateSubscription()
	s := &ethSub{make(chan *types.Header, 1000)}
	a.e.mux.Lock()
	a.e.subs[s] = true
	a.e.mux.Unlock()
	go func() {
		defer func() {
			a.e.mux.Lock()
			delete(a.e.subs, s)
			a.e.mux.Unlock()
		}()
		for {
			select {
			case h := <-s.ch:
				_ = notifier.Notify(sub.ID, h)
			case <-sub.Err():
				return
			case <-notifier.Closed():
				return
			}
		}
	}()
	return sub, nil
}
