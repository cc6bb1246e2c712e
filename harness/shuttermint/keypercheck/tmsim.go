package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/tendermint/go-amino"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"github.com/tendermint/tendermint/rpc/client"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

const tmChainID = "verif-chain"

type tmTx struct {
	height int64
	raw    []byte
	res    abcitypes.ResponseDeliverTx
}

// tmSim is a single tendermint node running the real application. Blocks are made on demand.
// A nil application makes a chain of prepared results (see addResults).
type tmSim struct {
	client.Client // panics for everything that isn't implemented below

	mux        sync.Mutex
	app        *app.ShutterApp
	height     int64 // height of the last block
	txs        []tmTx
	mempool    [][]byte
	catchingUp bool
	fault      func(method string) error
	giveUp     bool // answer to broadcasts as if the transaction didn't get into a block in time
	calls      map[string]int
	maxPage    int
	waiters    map[string]chan abcitypes.ResponseDeliverTx
	subs       []chan ctypes.ResultEvent
	heights    map[chan int64]bool
	chainID    string
}

func newTmSim(keypers []common.Address, threshold uint64, dbfile string) *tmSim {
	t := &tmSim{calls: map[string]int{}, waiters: map[string]chan abcitypes.ResponseDeliverTx{}, chainID: tmChainID}
	if len(keypers) == 0 {
		return t
	}
	st, err := amino.NewCodec().MarshalJSON(app.NewGenesisAppState(keypers, int(threshold)))
	must(err)
	t.app = app.NewShutterApp()
	t.app.Gobpath = dbfile
	t.app.InitChain(abcitypes.RequestInitChain{ChainId: tmChainID, AppStateBytes: st,
		Validators: []abcitypes.ValidatorUpdate{{Power: 10, PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: make([]byte, 32)}}}}})
	return t
}

// block makes a block of the given transactions and returns their results.
func (t *tmSim) block(txs [][]byte) []abcitypes.ResponseDeliverTx {
	t.mux.Lock()
	defer t.mux.Unlock()
	t.height++
	t.app.BeginBlock(abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: t.height}})
	var res []abcitypes.ResponseDeliverTx
	for _, raw := range txs {
		r := t.app.DeliverTx(abcitypes.RequestDeliverTx{Tx: raw})
		res = append(res, r)
		t.txs = append(t.txs, tmTx{t.height, raw, r})
	}
	t.app.EndBlock(abcitypes.RequestEndBlock{Height: t.height})
	t.app.Commit()
	for i, raw := range txs {
		if ch, ok := t.waiters[string(raw)]; ok {
			ch <- res[i]
			delete(t.waiters, string(raw))
		}
	}
	for _, s := range t.subs {
		select {
		case s <- ctypes.ResultEvent{}:
		default:
		}
	}
	for ch := range t.heights {
		select {
		case ch <- t.height:
		default:
		}
	}
	return res
}

// onBlock sends the heights of new blocks to a channel. It returns a function that ends that.
func (t *tmSim) onBlock(ch chan int64) func() {
	t.mux.Lock()
	defer t.mux.Unlock()
	if t.heights == nil {
		t.heights = map[chan int64]bool{}
	}
	t.heights[ch] = true
	return func() {
		t.mux.Lock()
		defer t.mux.Unlock()
		delete(t.heights, ch)
	}
}

// addResults makes a block with the given results.
func (t *tmSim) addResults(rs []abcitypes.ResponseDeliverTx) {
	t.mux.Lock()
	defer t.mux.Unlock()
	t.height++
	for i, r := range rs {
		t.txs = append(t.txs, tmTx{t.height, []byte(fmt.Sprintf("%d/%d", t.height, i)), r})
	}
}

// committed is the height a client sees as last committed.
func (t *tmSim) committed() int64 {
	t.mux.Lock()
	defer t.mux.Unlock()
	return t.height - 1
}

func (t *tmSim) enter(method string) (func(), error) {
	t.mux.Lock()
	t.calls[method]++
	f := t.fault
	t.mux.Unlock()
	if f != nil {
		if err := f(method); err != nil {
			return nil, err
		}
	}
	t.mux.Lock()
	return t.mux.Unlock, nil
}

func (t *tmSim) Status(ctx context.Context) (*ctypes.ResultStatus, error) {
	done, err := t.enter("status")
	if err != nil {
		return nil, err
	}
	defer done()
	return &ctypes.ResultStatus{SyncInfo: ctypes.SyncInfo{LatestBlockHeight: t.height, CatchingUp: t.catchingUp}}, nil
}

func (t *tmSim) Block(ctx context.Context, h *int64) (*ctypes.ResultBlock, error) {
	done, err := t.enter("block")
	if err != nil {
		return nil, err
	}
	defer done()
	n := t.height
	if h != nil {
		n = *h
	}
	if n <= 0 || n > t.height {
		return &ctypes.ResultBlock{}, nil
	}
	return &ctypes.ResultBlock{Block: &tmtypes.Block{Header: tmtypes.Header{Height: n, ChainID: t.chainID}, LastCommit: &tmtypes.Commit{Height: n - 1}}}, nil
}

func (t *tmSim) BlockchainInfo(ctx context.Context, min, max int64) (*ctypes.ResultBlockchainInfo, error) {
	done, err := t.enter("blockchain")
	if err != nil {
		return nil, err
	}
	defer done()
	r := &ctypes.ResultBlockchainInfo{LastHeight: t.height}
	for h := t.height; h > 0 && h > t.height-20; h-- {
		r.BlockMetas = append(r.BlockMetas, &tmtypes.BlockMeta{Header: tmtypes.Header{ChainID: t.chainID, Height: h}})
	}
	return r, nil
}

// TxSearch behaves as tendermint 0.34's: pages hold at most 100 entries, ascending order.
func (t *tmSim) TxSearch(ctx context.Context, query string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	done, err := t.enter("txsearch")
	if err != nil {
		return nil, err
	}
	defer done()
	lo, hi := int64(0), int64(1<<62)
	for _, cond := range strings.Split(strings.ToLower(query), " and ") {
		var n int64
		cond = strings.TrimSpace(cond)
		op := ""
		for _, o := range []string{">=", "<=", ">", "<", "="} {
			if strings.Contains(cond, o) {
				op = o
				break
			}
		}
		parts := strings.SplitN(cond, op, 2)
		if op == "" || strings.TrimSpace(parts[0]) != "tx.height" {
			return nil, fmt.Errorf("the simulated node can't answer %q", query)
		}
		if _, err := fmt.Sscanf(strings.TrimSpace(parts[1]), "%d", &n); err != nil {
			return nil, err
		}
		switch op {
		case ">=":
			lo = max64(lo, n)
		case ">":
			lo = max64(lo, n+1)
		case "<=":
			hi = min64(hi, n)
		case "<":
			hi = min64(hi, n-1)
		case "=":
			lo, hi = max64(lo, n), min64(hi, n)
		}
	}
	var hit []tmTx
	i := sort.Search(len(t.txs), func(i int) bool { return t.txs[i].height >= lo })
	for ; i < len(t.txs) && t.txs[i].height <= hi; i++ {
		hit = append(hit, t.txs[i])
	}
	if orderBy == "desc" {
		for i, j := 0, len(hit)-1; i < j; i, j = i+1, j-1 {
			hit[i], hit[j] = hit[j], hit[i]
		}
	} else if orderBy != "" && orderBy != "asc" {
		return nil, errors.New("expected order_by to be either `asc` or `desc` or empty")
	}
	per := 30
	if perPage != nil {
		per = *perPage
		if per < 1 {
			per = 30
		} else if per > 100 {
			per = 100
		}
	}
	pages := (len(hit)-1)/per + 1
	if len(hit) == 0 {
		pages = 1
	}
	p := 1
	if page != nil {
		p = *page
		if p <= 0 || p > pages {
			return nil, fmt.Errorf("page should be within [1, %d] range, given %d", pages, p)
		}
	}
	if pages > t.maxPage {
		t.maxPage = pages
	}
	res := &ctypes.ResultTxSearch{TotalCount: len(hit)}
	for j := (p - 1) * per; j < len(hit) && j < p*per; j++ {
		res.Txs = append(res.Txs, &ctypes.ResultTx{Hash: tmtypes.Tx(hit[j].raw).Hash(), Height: hit[j].height, Tx: hit[j].raw, TxResult: hit[j].res, Index: uint32(j)})
	}
	return res, nil
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// BroadcastTxCommit checks the transaction, adds it to the mempool and waits for its block.
func (t *tmSim) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	done, err := t.enter("broadcast")
	if err != nil {
		return nil, err
	}
	c := t.app.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
	if c.Code != 0 {
		done()
		return &ctypes.ResultBroadcastTxCommit{CheckTx: c}, nil
	}
	ch := make(chan abcitypes.ResponseDeliverTx, 1)
	t.waiters[string(tx)] = ch
	t.mempool = append(t.mempool, tx)
	giveUp := t.giveUp
	done()
	if giveUp {
		return nil, errors.New("timed out waiting for tx to be included in a block")
	}
	select {
	case r := <-ch:
		return &ctypes.ResultBroadcastTxCommit{CheckTx: c, DeliverTx: r, Height: t.committed() + 1}, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (t *tmSim) Subscribe(ctx context.Context, subscriber, query string, outCapacity ...int) (<-chan ctypes.ResultEvent, error) {
	done, err := t.enter("subscribe")
	if err != nil {
		return nil, err
	}
	defer done()
	ch := make(chan ctypes.ResultEvent, 100)
	t.subs = append(t.subs, ch)
	return ch, nil
}

func (t *tmSim) mempoolSize() int {
	t.mux.Lock()
	defer t.mux.Unlock()
	return len(t.mempool)
}

// waiting returns what's in the mempool.
func (t *tmSim) waiting() [][]byte {
	t.mux.Lock()
	defer t.mux.Unlock()
	return append([][]byte(nil), t.mempool...)
}

// takeMempool empties the mempool.
func (t *tmSim) takeMempool() [][]byte {
	t.mux.Lock()
	defer t.mux.Unlock()
	m := t.mempool
	t.mempool = nil
	return m
}

var _ = vt.NoPanic
