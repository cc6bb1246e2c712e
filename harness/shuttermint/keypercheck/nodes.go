package main

import (
	"context"
	"fmt"

	"net"
	"net/http"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/rpc"
	"github.com/tendermint/tendermint/libs/bytes"
	"github.com/tendermint/tendermint/libs/log"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	rpcserver "github.com/tendermint/tendermint/rpc/jsonrpc/server"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	tmtypes "github.com/tendermint/tendermint/types"
)

// The simulated nodes as servers on the loopback network, one of each for every keyper, each
// behind a proxy that can fail.

// proxy passes connections on. It can cut them, refuse new ones, or hold everything back.
type proxy struct {
	ln            net.Listener
	target        string
	mux           sync.Mutex
	cond          *sync.Cond
	conns         map[net.Conn]bool
	refuse        bool
	stall         bool
	closed        bool
	naccept, ncut int
}

func newProxy(target string) *proxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	p := &proxy{ln: ln, target: target, conns: map[net.Conn]bool{}}
	p.cond = sync.NewCond(&p.mux)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			p.mux.Lock()
			if p.refuse || p.closed {
				p.mux.Unlock()
				c.Close()
				continue
			}
			p.naccept++
			p.mux.Unlock()
			d, err := net.Dial("tcp", p.target)
			if err != nil {
				c.Close()
				continue
			}
			p.mux.Lock()
			p.conns[c], p.conns[d] = true, true
			p.mux.Unlock()
			go p.copy(c, d)
			go p.copy(d, c)
		}
	}()
	return p
}

func (p *proxy) addr() string { return p.ln.Addr().String() }

func (p *proxy) copy(dst, src net.Conn) {
	buf := make([]byte, 32*1024)
	for {
		n, err := src.Read(buf)
		p.mux.Lock()
		for p.stall && !p.closed && p.conns[src] {
			p.cond.Wait()
		}
		p.mux.Unlock()
		if n > 0 {
			if _, e := dst.Write(buf[:n]); e != nil {
				break
			}
		}
		if err != nil {
			break
		}
	}
	dst.Close()
	src.Close()
	p.mux.Lock()
	delete(p.conns, src)
	delete(p.conns, dst)
	p.mux.Unlock()
}

func (p *proxy) set(refuse, stall bool) {
	p.mux.Lock()
	p.refuse, p.stall = refuse, stall
	p.cond.Broadcast()
	p.mux.Unlock()
	if refuse {
		p.cut()
	}
}

func (p *proxy) cut() {
	p.mux.Lock()
	p.ncut++
	for c := range p.conns {
		c.Close()
		delete(p.conns, c)
	}
	p.cond.Broadcast()
	p.mux.Unlock()
}

func (p *proxy) close() {
	p.mux.Lock()
	p.closed = true
	p.mux.Unlock()
	p.ln.Close()
	p.cut()
}

// callCounter counts RPC calls by method.
type callCounter struct {
	mux sync.Mutex
	n   map[string]int
	on  func(m string)
}

func (c *callCounter) add(m string) {
	if c.on != nil {
		c.on(m)
	}
	c.mux.Lock()
	if c.n == nil {
		c.n = map[string]int{}
	}
	c.n[m]++
	c.mux.Unlock()
}

func (c *callCounter) get(m string) int {
	c.mux.Lock()
	defer c.mux.Unlock()
	return c.n[m]
}

func (c *callCounter) reset() {
	c.mux.Lock()
	c.n = nil
	c.mux.Unlock()
}

// ethNode serves a simulated chain over websocket.
type ethNode struct {
	*proxy
	calls *callCounter
	srv   *rpc.Server
	http  *http.Server
}

func newEthNode(e *ethSim) *ethNode {
	n := &ethNode{srv: rpc.NewServer(), calls: &callCounter{}}
	must(n.srv.RegisterName("eth", &ethAPI{e: e, called: n.calls.add}))
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	n.http = &http.Server{Handler: n.srv.WebsocketHandler([]string{"*"})}
	go func() { _ = n.http.Serve(ln) }()
	n.proxy = newProxy(ln.Addr().String())
	return n
}

func (n *ethNode) close() {
	n.proxy.close()
	n.http.Close()
	n.srv.Stop()
}

// tmNode serves a simulated shuttermint chain as tendermint does.
type tmNode struct {
	*proxy
	calls *callCounter
	http  *http.Server
	tm    *tmSim
	mux   sync.Mutex
	subs  map[string]func() // by remote address
	got   func(raw []byte)  // called for every transaction that's sent
}

func newTmNode(t *tmSim, got func(raw []byte)) *tmNode {
	n := &tmNode{tm: t, calls: &callCounter{}, subs: map[string]func(){}, got: got}
	routes := map[string]*rpcserver.RPCFunc{
		"subscribe":           rpcserver.NewWSRPCFunc(n.subscribe, "query"),
		"unsubscribe":         rpcserver.NewWSRPCFunc(n.unsubscribe, "query"),
		"unsubscribe_all":     rpcserver.NewWSRPCFunc(n.unsubscribeAll, ""),
		"status":              rpcserver.NewRPCFunc(n.status, ""),
		"block":               rpcserver.NewRPCFunc(n.block, "height"),
		"blockchain":          rpcserver.NewRPCFunc(n.blockchain, "minHeight,maxHeight"),
		"tx_search":           rpcserver.NewRPCFunc(n.txSearch, "query,prove,page,per_page,order_by"),
		"broadcast_tx_commit": rpcserver.NewRPCFunc(n.broadcastTxCommit, "tx"),
		"broadcast_tx_sync":   rpcserver.NewRPCFunc(n.broadcastTxSync, "tx"),
		"broadcast_tx_async":  rpcserver.NewRPCFunc(n.broadcastTxSync, "tx"),
		"abci_info":           rpcserver.NewRPCFunc(n.abciInfo, ""),
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	m := http.NewServeMux()
	wm := rpcserver.NewWebsocketManager(routes, rpcserver.OnDisconnect(n.drop))
	wm.SetLogger(log.NewNopLogger())
	m.HandleFunc("/websocket", wm.WebsocketHandler)
	rpcserver.RegisterRPCFuncs(m, routes, log.NewNopLogger())
	n.http = &http.Server{Handler: m}
	go func() { _ = n.http.Serve(ln) }()
	n.proxy = newProxy(ln.Addr().String())
	return n
}

func (n *tmNode) close() {
	n.proxy.close()
	n.http.Close()
	n.mux.Lock()
	defer n.mux.Unlock()
	for _, f := range n.subs {
		f()
	}
}

func (n *tmNode) drop(addr string) {
	n.mux.Lock()
	defer n.mux.Unlock()
	if f := n.subs[addr]; f != nil {
		f()
		delete(n.subs, addr)
	}
}

const newBlockQuery = "tm.event = 'NewBlock'"

func (n *tmNode) subscribe(ctx *rpctypes.Context, query string) (*ctypes.ResultSubscribe, error) {
	n.calls.add("subscribe")
	if query != newBlockQuery && query != "tm.event='NewBlock'" {
		return nil, fmt.Errorf("the simulated node doesn't know the query %q", query)
	}
	addr := ctx.RemoteAddr()
	n.mux.Lock()
	defer n.mux.Unlock()
	if n.subs[addr] != nil {
		return nil, fmt.Errorf("already subscribed")
	}
	ch := make(chan int64, 100)
	done := make(chan struct{})
	var once sync.Once
	remove := n.tm.onBlock(ch)
	n.subs[addr] = func() { once.Do(func() { close(done); remove() }) }
	id, conn := ctx.JSONReq.ID, ctx.WSConn
	go func() {
		for {
			select {
			case h := <-ch:
				ev := &ctypes.ResultEvent{Query: query, Events: map[string][]string{"tm.event": {"NewBlock"}},
					Data: tmtypes.EventDataNewBlock{Block: &tmtypes.Block{Header: tmtypes.Header{Height: h, ChainID: n.tm.chainID}, LastCommit: &tmtypes.Commit{Height: h - 1}}}}
				wctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
				_ = conn.WriteRPCResponse(wctx, rpctypes.NewRPCSuccessResponse(id, ev))
				cancel()
			case <-done:
				return
			}
		}
	}()
	return &ctypes.ResultSubscribe{}, nil
}

func (n *tmNode) unsubscribe(ctx *rpctypes.Context, query string) (*ctypes.ResultUnsubscribe, error) {
	n.drop(ctx.RemoteAddr())
	return &ctypes.ResultUnsubscribe{}, nil
}

func (n *tmNode) unsubscribeAll(ctx *rpctypes.Context) (*ctypes.ResultUnsubscribe, error) {
	n.drop(ctx.RemoteAddr())
	return &ctypes.ResultUnsubscribe{}, nil
}

func (n *tmNode) status(ctx *rpctypes.Context) (*ctypes.ResultStatus, error) {
	n.calls.add("status")
	return n.tm.Status(ctx.Context())
}

func (n *tmNode) abciInfo(ctx *rpctypes.Context) (*ctypes.ResultABCIInfo, error) {
	return &ctypes.ResultABCIInfo{}, nil
}

func (n *tmNode) block(ctx *rpctypes.Context, height *int64) (*ctypes.ResultBlock, error) {
	n.calls.add("block")
	return n.tm.Block(ctx.Context(), height)
}

func (n *tmNode) blockchain(ctx *rpctypes.Context, min, max int64) (*ctypes.ResultBlockchainInfo, error) {
	n.calls.add("blockchain")
	return n.tm.BlockchainInfo(ctx.Context(), min, max)
}

func (n *tmNode) txSearch(ctx *rpctypes.Context, query string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	n.calls.add("txsearch")
	return n.tm.TxSearch(ctx.Context(), query, prove, page, perPage, orderBy)
}

func (n *tmNode) broadcastTxCommit(ctx *rpctypes.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	n.calls.add("broadcast")
	if n.got != nil {
		n.got(tx)
	}
	// a node answers after some time even if nothing happens
	c, cancel := context.WithTimeout(ctx.Context(), 10*time.Second)
	defer cancel()
	return n.tm.BroadcastTxCommit(c, tx)
}

func (n *tmNode) broadcastTxSync(ctx *rpctypes.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTx, error) {
	n.calls.add("broadcast")
	if n.got != nil {
		n.got(tx)
	}
	c, cancel := context.WithCancel(context.Background())
	cancel()
	r, err := n.tm.BroadcastTxCommit(c, tx)
	if err != nil || r == nil {
		return &ctypes.ResultBroadcastTx{Hash: bytes.HexBytes(tx.Hash())}, nil
	}
	return &ctypes.ResultBroadcastTx{Code: r.CheckTx.Code, Log: r.CheckTx.Log, Hash: bytes.HexBytes(tx.Hash())}, nil
}
