package main

import (
	"bytes"
	"encoding/base64"
	"encoding/gob"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// A cluster runs the real keyper program, as processes of their own, against the simulated nodes.
// The processes are killed, stopped and started again, and their connections fail. The chains'
// pace depends on the keypers: it's slowed down when a keyper would be late, so that a busy
// machine doesn't matter.

type clusterOpts struct {
	sim     simOpts
	faults  []string
	every   time.Duration // mean time between faults
	batches uint64        // the batches to execute before the run ends
	dark    bool          // one keyper is stopped for good after the key generation
	silence bool          // the chains stop for a while
	crash   string        // kill or term: keypers are killed or stopped while they send certain messages
}

type cluster struct {
	k     *vt.K
	o     clusterOpts
	s     *sim
	procs []*keyperProc
	mux   sync.Mutex
	tries []e2eTry // everything keypers sent to shuttermint
	t0    time.Time

	nextTm, nextEth time.Time
	lastTm, lastEth time.Time
	slowTm, slowEth int
	slowest         int
	lastProgress    time.Time
	silent          time.Time
	lastHs          uint64
	nextFault       time.Time
	calm            bool
}

type e2eTry struct {
	from common.Address
	msg  *shmsg.Message
	raw  []byte
}

type keyperProc struct {
	c       *cluster
	kp      *simKeyper
	eth     *ethNode
	tm      *tmNode
	cmd     *exec.Cmd
	logPath string
	starts  int
	exited  chan error
	running bool
	started time.Time
	want    string // how it's supposed to end: kill, term
	asked   time.Time
	again   time.Time // when to start it (again)
	restore time.Time // when the connections work again
	darken  time.Time // when to send SIGTERM during a fault
	netty   bool      // connections failed since it was started
	stops   int
	cuts    int
	marks   []int // number of transactions when it starts
	gone    bool

	plan []crashPoint // guarded by trapMux
	save string       // kind of action to be saved in the state when it's killed, before it's saved as pending

	trapMux sync.Mutex
	trap    string // the process is killed when it sends something to this node
	delay   time.Duration
	sprung  bool
}

// crashPoint tells what a process is sending when it's to be killed or stopped.
type crashPoint struct {
	what  string
	skip  int // how many of them it sends before
	delay time.Duration
	term  bool
	due   time.Time // it happened, now the process is to be stopped
}

func kindOf(m *shmsg.Message) string {
	switch m.Payload.(type) {
	case *shmsg.Message_CheckIn:
		return "check-in"
	case *shmsg.Message_PolyCommitment:
		return "commitment"
	case *shmsg.Message_PolyEval:
		return "evaluations"
	case *shmsg.Message_EpochSecretKeyShare:
		return "share"
	case *shmsg.Message_DecryptionSignature:
		return "signature"
	}
	return "other"
}

// makePlan chooses the moments at which a process is going to be killed or stopped.
func (p *keyperProc) makePlan(i int, term bool) {
	r := p.c.k.R
	delay := func() time.Duration {
		return time.Duration(r.Intn(60)*r.Intn(2)) * time.Millisecond
	}
	first := []string{"commitment", "evaluations", "commitment", "check-in"}[(i+p.c.k.Idx)%4]
	p.plan = append(p.plan, crashPoint{what: first, delay: delay(), term: term})
	if r.Intn(2) == 0 {
		p.plan = append(p.plan, crashPoint{what: []string{"share", "signature"}[r.Intn(2)], skip: r.Intn(3), delay: delay(), term: term})
	}
}

// arrive is called when a node gets a message of the process, before it answers.
func (p *keyperProc) arrive(kind string) {
	p.trapMux.Lock()
	defer p.trapMux.Unlock()
	if len(p.plan) == 0 || p.plan[0].what != kind || !p.plan[0].due.IsZero() {
		return
	}
	if p.plan[0].skip > 0 {
		p.plan[0].skip--
		return
	}
	cp := p.plan[0]
	if cp.term {
		p.plan[0].due = time.Now().Add(cp.delay) // see watch
		return
	}
	p.plan = p.plan[1:]
	p.sprung = true
	p.c.k.Seen("crash points", "killed at "+kind)
	if cp.delay == 0 {
		_ = syscall.Kill(p.cmd.Process.Pid, syscall.SIGKILL)
		return
	}
	cmd := p.cmd
	time.AfterFunc(cp.delay, func() { _ = cmd.Process.Kill() })
}

// spring kills the process if a trap was set for what it does.
func (p *keyperProc) spring(what string) {
	p.trapMux.Lock()
	defer p.trapMux.Unlock()
	if p.trap != what {
		return
	}
	p.trap, p.sprung = "", true
	pid := p.cmd.Process.Pid
	if p.delay == 0 {
		_ = syscall.Kill(pid, syscall.SIGKILL)
		return
	}
	cmd := p.cmd
	time.AfterFunc(p.delay, func() { _ = cmd.Process.Kill() })
}

// decisionTrap chooses the kind of action the process is killed for, once it has saved the
// decision in its state.
func (p *keyperProc) decisionTrap() string {
	s := p.c.s
	if p.c.o.crash != "kill" || p.c.k.R.Intn(2) == 0 {
		return ""
	}
	if n := len(s.eons); n == 0 || s.tm.height < s.eons[n-1].Height+2*int64(s.o.phase) {
		return "" // the key generation mustn't be slowed down
	}
	return []string{"execution", "execution", "main chain", "message"}[p.c.k.R.Intn(4)]
}

// watchState kills the process once it has saved the decision for an action of the wanted kind,
// before it can do more than that: it's stopped whenever it has saved its state.
func (p *keyperProc) watchState(cmd *exec.Cmd, kind string) {
	dir := filepath.Join(p.kp.dir, "db")
	must(os.MkdirAll(dir, 0o755))
	fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC | syscall.IN_NONBLOCK)
	must(err)
	_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_MOVED_TO|syscall.IN_CLOSE_WRITE)
	must(err)
	events := os.NewFile(uintptr(fd), "inotify")
	skip := p.c.k.R.Intn(2)
	over := func() bool {
		p.trapMux.Lock()
		defer p.trapMux.Unlock()
		return p.cmd != cmd || p.sprung || cmd.Process.Signal(syscall.Signal(0)) != nil
	}
	go func() {
		defer events.Close()
		buf := make([]byte, 4096)
		for {
			_ = events.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
			n, err := events.Read(buf)
			if over() || err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
				return
			}
			if !bytes.Contains(buf[:n], []byte("state.gob\x00")) {
				continue
			}
			_ = cmd.Process.Signal(syscall.SIGSTOP)
			if !savedAction(filepath.Join(dir, "state.gob"), kind) || skip > 0 {
				if skip > 0 {
					skip--
				}
				_ = cmd.Process.Signal(syscall.SIGCONT)
				continue
			}
			p.trapMux.Lock()
			if p.cmd == cmd && !p.sprung {
				p.sprung = true
				_ = cmd.Process.Kill()
				p.c.k.Seen("crash points", "killed after saving the decision: "+kind)
				p.c.k.Count("killed after saving a decision")
			}
			p.trapMux.Unlock()
			_ = cmd.Process.Signal(syscall.SIGCONT)
			return
		}
	}()
}

func savedAction(path, kind string) bool {
	f, err := os.Open(path)
	if err != nil {
		return false
	}
	defer f.Close()
	var st struct{ State *keyper.State }
	err = gob.NewDecoder(f).Decode(&st)
	return err == nil && st.State != nil && hasAction(st.State.Actions, kind)
}

func hasAction(acts []fx.IAction, kind string) bool {
	for _, a := range acts {
		switch a.(type) {
		case *fx.SendShuttermintMessage:
			if kind == "message" {
				return true
			}
		case *fx.ExecuteCipherBatch, *fx.ExecutePlainBatch, *fx.SkipCipherBatch:
			if kind != "message" {
				return true
			}
		default:
			if kind == "main chain" {
				return true
			}
		}
	}
	return false
}

func newCluster(k *vt.K, o clusterOpts) *cluster {
	c := &cluster{k: k, o: o, t0: time.Now(), s: newSim(k, o.sim)}
	c.s.w.gasPrice = 4 * int64(1+k.R.Intn(1000))
	for _, kp := range c.s.kps[:o.sim.n] {
		k.Tracef("%s is %s", kp.name, addr4(kp.addr))
		p := &keyperProc{c: c, kp: kp, logPath: filepath.Join(kp.dir, "keyper.log")}
		p.eth = newEthNode(c.s.w.ethSim)
		p.eth.calls.on = func(method string) {
			if method == "sendRawTransaction" {
				p.spring("eth")
			}
		}
		addr := kp.addr
		p.tm = newTmNode(c.s.tm, func(raw []byte) {
			if from, m, ok := decodeTx(raw); ok {
				p.spring("tm")
				p.arrive(kindOf(m))
				c.mux.Lock()
				c.tries = append(c.tries, e2eTry{from, m, raw})
				c.mux.Unlock()
				if from != addr {
					k.Failf("wrong-signer", "%s sends a message signed by %s", kp.name, from.Hex())
				}
			} else {
				k.Failf("malformed", "%s sends a malformed transaction", kp.name)
			}
		})
		kp.cfg.EthereumURL = "ws://" + p.eth.addr()
		kp.cfg.ShuttermintURL = "http://" + p.tm.addr()
		kp.cfg.GasPriceMultiplier = []float64{0.75, 1, 1.5, 2.25}[k.R.Intn(4)]
		kp.cfg.DBDir = "db"
		must(os.MkdirAll(filepath.Join(kp.dir, "db"), 0o755))
		f, err := os.Create(filepath.Join(kp.dir, "config.toml"))
		must(err)
		must(kp.cfg.WriteTOML(f))
		must(f.Close())
		kp.cfg.DBDir = filepath.Join(kp.dir, "db")
		c.procs = append(c.procs, p)
	}
	return c
}

func (c *cluster) trace(f string, a ...interface{}) {
	c.k.Tracef("[%6.2fs eth %d tm %d] "+f, append([]interface{}{time.Since(c.t0).Seconds(), c.s.w.head(), c.s.tm.committed() + 1}, a...)...)
}

func (c *cluster) close() {
	if c.k.Failed() && os.Getenv("VERIF_KEEP_LOGS") != "" {
		for _, p := range c.procs {
			b, _ := os.ReadFile(p.logPath)
			_ = os.WriteFile(filepath.Join(os.Getenv("VERIF_KEEP_LOGS"), fmt.Sprintf("%s-%d-%s.log", c.k.Name, c.k.Idx, p.kp.name)), b, 0o644)
		}
	}
	for _, p := range c.procs {
		if p.running {
			_ = p.cmd.Process.Kill()
			<-p.exited
			p.running = false
		}
		p.eth.close()
		p.tm.close()
	}
	c.s.close()
}

func decodeTx(raw []byte) (common.Address, *shmsg.Message, bool) {
	signed, err := base64.RawURLEncoding.DecodeString(string(raw))
	if err != nil {
		return common.Address{}, nil, false
	}
	from, err := shmsg.GetSigner(signed)
	if err != nil {
		return common.Address{}, nil, false
	}
	m, err := shmsg.GetMessage(signed)
	if err != nil {
		return common.Address{}, nil, false
	}
	return from, m.Msg, true
}

func (p *keyperProc) start() {
	// the directory where it's started is of no importance
	file, dir := filepath.Join(p.kp.dir, "config.toml"), p.kp.dir
	switch (p.starts + p.kp.idx) % 3 {
	case 0:
		dir = filepath.Dir(p.kp.dir)
	case 1:
		file = "config.toml"
	}
	p.starts++
	p.c.s.w.mux.Lock()
	p.marks = append(p.marks, len(p.c.s.w.sent))
	p.c.s.w.mux.Unlock()
	p.save = p.decisionTrap()
	p.trapMux.Lock()
	p.cmd = exec.Command(os.Getenv("VERIF_SHUTTERMINT"), "keyper", "--config", file)
	p.trapMux.Unlock()
	p.cmd.Dir = dir
	p.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + p.kp.dir, "GORACE=" + os.Getenv("GORACE") + " atexit_sleep_ms=20", "GOTRACEBACK=all"}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	f, err := os.OpenFile(p.logPath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	p.cmd.Stdout, p.cmd.Stderr = f, f
	p.eth.calls.reset()
	p.tm.calls.reset()
	must(p.cmd.Start())
	f.Close()
	p.exited = make(chan error, 1)
	cmd, ch := p.cmd, p.exited
	go func() { ch <- cmd.Wait() }()
	p.running, p.want, p.started, p.netty = true, "", time.Now(), false
	p.again = time.Time{}
	p.trapMux.Lock()
	p.trap, p.sprung = "", false
	p.trapMux.Unlock()
	if p.save != "" {
		p.watchState(cmd, p.save)
	}
	p.c.k.Count("process starts")
	p.c.trace("%s starts", p.kp.name)
}

// ready tells whether the process is past the start, where it may well give up without a node.
func (p *keyperProc) ready() bool {
	return p.running && p.tm.calls.get("subscribe") > 0 && p.eth.calls.get("newHeads") > 0 && p.tm.calls.get("txsearch") > 0 && p.eth.calls.get("getLogs") > 0
}

func (p *keyperProc) log() string {
	b, _ := os.ReadFile(p.logPath)
	for _, what := range []string{"panic: ", "fatal error: ", "SIGQUIT: "} {
		if i := bytes.LastIndex(b, []byte("\n"+what)); i >= 0 {
			if b = b[i:]; len(b) > 200000 {
				b = b[:200000]
			}
			return string(b)
		}
	}
	if len(b) > 6000 {
		b = b[len(b)-6000:]
	}
	return string(b)
}

func (p *keyperProc) stop(how string, again time.Duration) {
	p.want, p.asked = how, time.Now()
	sig := syscall.SIGKILL
	if how == "term" {
		sig = syscall.SIGTERM
		if p.c.k.R.Intn(2) == 0 {
			sig = syscall.SIGINT
		}
	}
	p.stops++
	p.c.k.Count("stops: " + how)
	p.c.trace("%s gets %s", p.kp.name, sig)
	_ = p.cmd.Process.Signal(sig)
	p.again = time.Now().Add(again)
}

const shutdownLimit = 20 * time.Second

// watch looks after a process: did it end as wanted, is it time to start it again.
func (p *keyperProc) watch() {
	k := p.c.k
	if p.running {
		select {
		case err := <-p.exited:
			p.running = false
			p.exit(err)
		default:
			if p.want == "term" && time.Since(p.asked) > shutdownLimit {
				_ = p.cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-p.exited:
				case <-time.After(5 * time.Second):
					_ = p.cmd.Process.Kill()
					<-p.exited
				}
				p.running = false
				k.Failf("shutdown-hangs", "%s hasn't ended %s after SIGTERM:\n%s", p.kp.name, shutdownLimit, p.log())
				return
			}
		}
	}
	now := time.Now()
	p.trapMux.Lock()
	stop := len(p.plan) > 0 && !p.plan[0].due.IsZero() && now.After(p.plan[0].due)
	what := ""
	if stop {
		what = p.plan[0].what
		p.plan = p.plan[1:]
	}
	p.trapMux.Unlock()
	if stop && p.running && p.want == "" && p.restore.IsZero() && p.darken.IsZero() {
		k.Seen("crash points", "stopped at "+what)
		p.stop("term", time.Duration(k.R.Intn(1000))*time.Millisecond)
	}
	// Connections that failed before a stop don't work again before the process has ended.
	if !p.restore.IsZero() && now.After(p.restore) && p.darken.IsZero() && !(p.running && p.want == "term") {
		p.eth.set(false, false)
		p.tm.set(false, false)
		p.restore = time.Time{}
		p.c.trace("%s's connections work again", p.kp.name)
	}
	if !p.darken.IsZero() && now.After(p.darken) {
		p.darken = time.Time{}
		if p.running && p.want == "" {
			p.stop("term", 0)
			k.Count("stops while a connection is down")
		}
	}
	if !p.running && !p.gone && p.restore.IsZero() && p.darken.IsZero() && !p.again.IsZero() && now.After(p.again) {
		p.start()
	}
}

func (p *keyperProc) exit(err error) {
	k := p.c.k
	p.trapMux.Lock()
	p.trap = ""
	sprung := p.sprung
	p.trapMux.Unlock()
	if sprung && p.want != "kill" {
		if p.want == "" {
			p.stops++
			p.again = time.Now().Add(time.Duration(k.R.Intn(1000)) * time.Millisecond)
		}
		k.Count("killed while sending")
		p.c.trace("%s was killed while sending", p.kp.name)
		return
	}
	switch p.want {
	case "kill":
		return
	case "term":
		p.c.trace("%s ended after %s: %v", p.kp.name, time.Since(p.asked).Round(time.Millisecond), err)
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() == 66 {
			return // the race detector's reports are counted by run.sh
		}
		if err != nil && !p.early() {
			k.Failf("shutdown-status", "%s ends with %v after SIGTERM:\n%s", p.kp.name, err, p.log())
			return
		}
		k.Count("orderly shutdowns")
		return
	}
	if p.netty && p.early() {
		k.Count("starts that failed for lack of a node")
		p.again = time.Now().Add(200 * time.Millisecond)
		return
	}
	k.Failf("unexpected-exit", "%s ended by itself: %v\n%s", p.kp.name, err, p.log())
}

// early: the process ended while it was still starting.
func (p *keyperProc) early() bool {
	return !(p.tm.calls.get("subscribe") > 0 && p.eth.calls.get("newHeads") > 0)
}

// ---- faults ----

func (c *cluster) fault() {
	r := c.k.R
	var cand []*keyperProc
	for _, p := range c.procs {
		if p.running && p.want == "" && p.restore.IsZero() && p.darken.IsZero() {
			cand = append(cand, p)
		}
	}
	if len(cand) == 0 {
		return
	}
	p := cand[r.Intn(len(cand))]
	kind := c.o.faults[r.Intn(len(c.o.faults))]
	ms := func(lo, hi int) time.Duration { return time.Duration(lo+r.Intn(hi-lo)) * time.Millisecond }
	switch kind {
	case "kill", "term":
		p.stop(kind, ms(0, 1200))
		return
	case "trap":
		p.trapMux.Lock()
		if !p.sprung {
			p.trap = []string{"tm", "tm", "eth"}[r.Intn(3)]
			p.delay = ms(0, 120) * time.Duration(r.Intn(2))
		}
		p.trapMux.Unlock()
		return
	case "usr1":
		_ = p.cmd.Process.Signal(syscall.SIGUSR1)
		c.k.Count("SIGUSR1")
		return
	}
	if !p.ready() {
		return
	}
	node := p.eth.proxy
	if strings.HasSuffix(kind, "-tm") {
		node = p.tm.proxy
	}
	c.k.Count("faults: " + kind)
	c.trace("%s: %s", p.kp.name, kind)
	p.netty = true
	p.cuts++
	switch strings.SplitN(kind, "-", 2)[0] {
	case "cut":
		node.cut()
	case "refuse":
		node.set(true, false)
		p.restore = time.Now().Add(ms(200, 4000))
	case "stall":
		node.set(false, true)
		p.restore = time.Now().Add(ms(200, 4000))
	case "long": // longer than the keyper waits for blocks
		node.set(false, true)
		d := ms(10500, 16000)
		if kind == "long-eth" {
			d = ms(30500, 36000)
		}
		p.restore = time.Now().Add(d)
		if r.Intn(2) == 0 {
			p.darken = p.restore
		}
	case "dark": // stop it while a node is away
		node.set(r.Intn(3) != 0, true)
		p.restore = time.Now()
		p.darken = time.Now().Add(ms(0, 7000))
	default:
		panic("unknown fault " + kind)
	}
}

// ---- pace ----

// lateTm tells which keypers should say something before the next shuttermint blocks, and how
// many blocks are left.
func (c *cluster) lateTm() (late map[common.Address]bool, left int64) {
	s := c.s
	late = map[common.Address]bool{}
	if len(s.eons) == 0 {
		return
	}
	ev := s.eons[len(s.eons)-1]
	L := int64(s.o.phase)
	d := s.tm.height - ev.Height
	left = L - d%L
	if d/L != 0 && d/L != 2 || left > 12 {
		return
	}
	comm := map[common.Address]bool{}
	evals := map[common.Address]map[string]bool{}
	accused := map[common.Address]map[common.Address]bool{}
	for _, m := range s.msgs {
		switch p := m.m.Payload.(type) {
		case *shmsg.Message_PolyCommitment:
			if p.PolyCommitment.Eon == ev.Eon {
				comm[m.sender] = true
			}
		case *shmsg.Message_PolyEval:
			if p.PolyEval.Eon == ev.Eon {
				if evals[m.sender] == nil {
					evals[m.sender] = map[string]bool{}
				}
				for _, r := range p.PolyEval.Receivers {
					evals[m.sender][string(r)] = true
				}
			}
		case *shmsg.Message_Accusation:
			if p.Accusation.Eon == ev.Eon {
				for _, x := range p.Accusation.Accused {
					a := common.BytesToAddress(x)
					if accused[a] == nil {
						accused[a] = map[common.Address]bool{}
					}
					accused[a][m.sender] = true
				}
			}
		case *shmsg.Message_Apology:
			if p.Apology.Eon == ev.Eon {
				for _, x := range p.Apology.Accusers {
					delete(accused[m.sender], common.BytesToAddress(x))
				}
			}
		}
	}
	for _, p := range c.procs {
		a := p.kp.addr
		if d/L == 0 && (!comm[a] || len(evals[a]) < s.o.n-1) || d/L == 2 && len(accused[a]) > 0 {
			late[a] = true
		}
	}
	return
}

// hold tells whether the keypers that are late need time before the next block.
func (c *cluster) hold(late map[common.Address]bool, left int64) bool {
	if len(late) == 0 {
		return false
	}
	if c.disturbed() {
		return true
	}
	if left > 6 {
		return false
	}
	for _, tx := range c.s.tm.waiting() {
		if from, _, ok := decodeTx(tx); ok && late[from] {
			return false
		}
	}
	for _, p := range c.procs {
		if late[p.kp.addr] && !p.gone {
			return true
		}
	}
	return false
}

// disturbed tells whether a process is down or cut off.
func (c *cluster) disturbed() bool {
	for _, p := range c.procs {
		if !p.gone && (!p.running || p.early() || p.want != "" || !p.restore.IsZero() || !p.darken.IsZero()) {
			return true
		}
	}
	return false
}

// lateEth tells whether a half step should have been executed by now, and how many blocks are
// left for it.
func (c *cluster) lateEth() (bool, uint64) {
	s := c.s
	hs, err := s.w.exe.NumExecutionHalfSteps(nil)
	must(err)
	if hs > c.lastHs {
		c.lastHs, c.lastProgress = hs, time.Now()
	}
	in := s.info(hs / 2)
	head := s.w.head()
	if !in.active || head+20 < in.timeout {
		return false, 0
	}
	if head >= in.timeout {
		return true, 0
	}
	return true, in.timeout - head
}

// keyless tells whether the first batch is about to end and the eon key isn't there.
func (c *cluster) keyless() bool {
	s := c.s
	if c.lastHs > 0 || len(s.eons) == 0 {
		return false
	}
	in := s.info(0)
	if !in.active || s.w.head()+12 < in.end || s.w.head() >= in.end {
		return false
	}
	n, err := s.w.bcast.GetBestKeyNumVotes(nil, 0)
	must(err)
	return n.Int64() < int64(s.o.n) && !c.procs[0].gone
}

func pause(base time.Duration, late bool, slow *int) time.Duration {
	if !late {
		*slow = 0
		return base
	}
	if *slow < 40 {
		*slow++
	}
	d := 4 * time.Second
	if *slow < 6 {
		d = base << uint(*slow)
	}
	return d
}

const (
	tmBase  = 70 * time.Millisecond
	ethBase = 170 * time.Millisecond
)

// advance makes blocks when it's time to, and faults.
func (c *cluster) advance() {
	s := c.s
	now := time.Now()
	if c.o.silence && c.silent.IsZero() && c.lastHs > 0 {
		c.silent = now
		c.trace("the chains stop")
		c.k.Count("chains that stopped for a while")
	}
	tmSilent := !c.silent.IsZero() && now.Before(c.silent.Add(12*time.Second))
	ethSilent := !c.silent.IsZero() && now.Before(c.silent.Add(33*time.Second))
	if tmSilent {
		c.nextTm = now.Add(tmBase)
	} else if now.After(c.nextTm) || c.slowTm > 0 && s.tm.mempoolSize() > 0 && now.After(c.lastTm.Add(tmBase)) {
		if c.hold(c.lateTm()) && now.Before(c.lastTm.Add(60*time.Second)) {
			c.nextTm = now.Add(tmBase) // wait for it
			if c.slowTm < 2 {
				c.slowTm = 2
			}
		} else {
			c.tmBlock(nil)
			c.lastTm = time.Now()
			late, _ := c.lateTm()
			c.nextTm = c.lastTm.Add(pause(tmBase, len(late) > 0, &c.slowTm))
		}
	}
	if ethSilent {
		c.nextEth = now.Add(ethBase)
	} else if now.After(c.nextEth) || c.slowEth > 0 && s.w.poolSize() > 0 && now.After(c.lastEth.Add(ethBase)) {
		// wait for the eon key, but not for long: a keyper that starts needs new blocks, too
		if c.keyless() && s.w.poolSize() == 0 && now.Before(c.lastEth.Add(8*time.Second)) {
			c.nextEth = now.Add(ethBase)
			if c.slowEth < 4 {
				c.slowEth = 4
			}
		} else {
			if !s.quiet {
				s.users()
			}
			s.w.mine(nil)
			c.lastEth = time.Now()
			late, left := c.lateEth()
			c.nextEth = c.lastEth.Add(pause(ethBase, late, &c.slowEth))
			if late && left > 0 && left < 10 { // a busy machine
				c.nextEth = c.lastEth.Add(15 * time.Second)
				c.k.Count("last blocks before a timeout slowed down")
			}
		}
	}
	if tmSilent || ethSilent {
		c.lastProgress = now
	}
	if c.slowTm > c.slowest {
		c.slowest = c.slowTm
	}
	if c.slowEth > c.slowest {
		c.slowest = c.slowEth
	}
	for _, p := range c.procs {
		p.watch()
	}
	// no faults while a keyper is about to be late
	if !c.calm && c.slowTm < 2 && c.slowEth < 4 && len(c.o.faults) > 0 && now.After(c.nextFault) && !c.keyless() {
		if !c.nextFault.IsZero() {
			c.fault()
		}
		c.nextFault = now.Add(time.Duration((0.3 + 1.4*c.k.R.Float64()) * float64(c.o.every)))
	}
	time.Sleep(5 * time.Millisecond)
}

// tmBlock makes a block of what's in the mempool.
func (c *cluster) tmBlock(extra []outMsg) {
	s := c.s
	raw := s.tm.takeMempool()
	for _, m := range extra {
		raw = append(raw, s.send(m.key, m.m))
	}
	for i, res := range s.tm.block(raw) {
		from, m, ok := decodeTx(raw[i])
		if !ok {
			continue
		}
		if res.Code == 0 {
			s.msgs = append(s.msgs, shMsg{s.tm.height, from, m})
			c.k.Count("messages accepted")
			switch m.Payload.(type) {
			case *shmsg.Message_EpochSecretKeyShare, *shmsg.Message_DecryptionSignature:
			default:
				c.trace("%s: %s", s.nameOf(from), msgText(m))
			}
		} else {
			c.k.Count("messages refused")
			c.trace("%s: refused %s: %s", s.nameOf(from), msgText(m), strings.SplitN(res.Log, "\n", 2)[0])
		}
		for _, ev := range res.Events {
			x, err := shutterevents.MakeEvent(ev, s.tm.height)
			must(err)
			switch e := x.(type) {
			case *shutterevents.EonStarted:
				s.eons = append(s.eons, *e)
				c.trace("eon %d starts for batch %d", e.Eon, e.BatchIndex)
			case *shutterevents.BatchConfig:
				s.confs = append(s.confs, simConf{s.tm.height, *e})
			}
		}
	}
}

func (c *cluster) until(limit time.Duration, cond func() bool) bool {
	for t := time.Now(); time.Since(t) < limit; {
		if c.k.Failed() {
			return false
		}
		c.advance()
		if cond() {
			return true
		}
	}
	return false
}

// run runs the cluster until its batches are executed.
func (c *cluster) run() {
	runtime.LockOSThread() // the processes end with this thread
	defer runtime.UnlockOSThread()
	s, k := c.s, c.k
	k.Tracef("%+v", c.o)
	c.calm = true
	for i, p := range c.procs {
		if c.o.crash != "" {
			p.makePlan(i, c.o.crash == "term")
		}
		p.start()
	}
	if !c.until(120*time.Second, func() bool {
		for _, p := range c.procs {
			if !p.ready() {
				return false
			}
		}
		return true
	}) {
		if !k.Failed() {
			k.Failf("no-start", "the keypers don't begin to synchronise within two minutes:\n%s", c.procs[0].log())
		}
		return
	}
	c.calm = false
	s.schedule(s.kps[:s.o.n], uint64(s.o.t), 0, s.w.head()+30+uint64(3*s.o.phase)*uint64(tmBase)/uint64(ethBase))
	bc, err := s.w.cfg.GetConfigByIndex(nil, 1)
	must(err)
	c.lastProgress = time.Now()
	c.tmBlock([]outMsg{{s.boot, nil, shmsg.NewBatchConfig(bc.StartBatchIndex, bc.Keypers, bc.Threshold, s.w.addr.config, 1, false, false)},
		{s.boot, nil, shmsg.NewBatchConfigStarted(1)}})
	if len(s.eons) != 1 {
		panic(vt.InfraError("the bootstrap of the cluster fails"))
	}
	done := func() bool {
		if c.o.dark && !c.procs[0].gone && s.tm.height > s.eons[0].Height+3*int64(s.o.phase)+10 {
			p := c.procs[0]
			if p.running && p.want == "" {
				p.stop("kill", 0)
				p.gone = true
				c.trace("%s doesn't come back", p.kp.name)
			}
		}
		return c.lastHs >= 2*c.o.batches
	}
	for !c.until(200*time.Millisecond, done) {
		if k.Failed() {
			return
		}
		if time.Since(c.lastProgress) > 300*time.Second {
			logs := ""
			for _, p := range c.procs {
				logs += "\n--- " + p.kp.name + "\n" + p.log()
			}
			in := s.info(c.lastHs / 2)
			k.Failf("stuck", "no progress for 300 seconds: half step %d at block %d, batch %d ended at %d, times out at %d%s", c.lastHs, s.w.head(), c.lastHs/2, in.end, in.timeout, logs)
			return
		}
	}
	c.calm, s.quiet = true, true
	// let everything come to rest, then stop all of them in order
	if !c.until(60*time.Second, func() bool {
		for _, p := range c.procs {
			if !p.gone && (!p.running || p.early() || p.want != "" || !p.restore.IsZero() || time.Since(p.started) < 2*time.Second) {
				return false
			}
		}
		return true
	}) {
		if !k.Failed() {
			k.Failf("no-recovery", "the keypers don't run a minute after the last fault:\n%s", c.procs[len(c.procs)-1].log())
		}
		return
	}
	rest := time.Now()
	c.until(60*time.Second, func() bool { return time.Since(rest) > 3*time.Second })
	if k.Failed() || !c.stopAll() {
		return
	}
	// they have nothing to say about the key generation when they're started again
	n := len(c.tries)
	if k.R.Intn(2) == 0 {
		k.Count("runs with another start at the end")
		for _, p := range c.procs {
			if !p.gone {
				p.start()
			}
		}
		if c.until(120*time.Second, func() bool {
			for _, p := range c.procs {
				if !p.gone && !p.ready() {
					return false
				}
			}
			return true
		}) {
			rest = time.Now()
			c.until(60*time.Second, func() bool { return time.Since(rest) > 2*time.Second })
		} else if !k.Failed() {
			k.Failf("no-restart", "the keypers don't begin to synchronise after they were started again:\n%s", c.procs[len(c.procs)-1].log())
		}
		if k.Failed() || !c.stopAll() {
			return
		}
		for _, t := range c.tries[n:] {
			switch t.msg.Payload.(type) {
			case *shmsg.Message_EpochSecretKeyShare, *shmsg.Message_DecryptionSignature, *shmsg.Message_BatchConfigStarted:
			default:
				k.Failf("afterthought", "%s sends %v after it was started again", s.nameOf(t.from), t.msg)
				return
			}
		}
	}
	c.judge()
}

func (c *cluster) stopAll() bool {
	for _, p := range c.procs {
		if p.running {
			p.stop("term", time.Hour)
		}
	}
	c.until(2*shutdownLimit, func() bool {
		for _, p := range c.procs {
			if p.running {
				return false
			}
		}
		return true
	})
	return !c.k.Failed()
}

// judge looks at what's on the chains and on the disks.
func (c *cluster) judge() {
	s, k := c.s, c.k
	k.Count("clusters run to the end")
	if len(s.eons) != 1 {
		k.Failf("dkg-repeated", "%d key generations were started, though all keypers are honest and took part in time", len(s.eons))
		return
	}
	ref := s.ref(s.eons[0].Eon)
	if ref == nil || ref.pub == nil {
		k.Failf("dkg-failed", "the key generation fails, though all keypers are honest and took part in time")
		return
	}
	for i, q := range ref.qualified {
		if !q {
			k.Failf("dkg-disqualified", "the honest %s isn't qualified", s.nameOf(ref.keypers[i]))
			return
		}
	}
	// what each of them sent
	for _, p := range c.procs {
		c.judgeMessages(p)
	}
	for _, m := range s.msgs {
		switch m.m.Payload.(type) {
		case *shmsg.Message_Accusation, *shmsg.Message_EonStartVote:
			k.Failf("dkg-accusation", "%s sends %v, though all keypers are honest and took part in time", s.nameOf(m.sender), m.m)
			return
		}
	}
	// what's on the disk
	for _, p := range c.procs {
		n := keyper.NewKeyper(p.kp.cfg)
		if err := n.LoadState(); err != nil {
			k.Failf("load-state", "the state of %s can't be loaded: %v", p.kp.name, err)
			return
		}
		p.kp.st = n.State
		if p.gone {
			continue
		}
		if len(n.State.EKGs) != 1 {
			k.Failf("dkg-missing", "%s has %d eon keys", p.kp.name, len(n.State.EKGs))
			return
		}
		g := n.State.EKGs[0].EpochKG
		id := shcrypto.ComputeEpochID(epochBytes(99))
		k.Check(g.PublicKey.Equal(ref.pub), "dkg-public-key", "%s has another public key than follows from the chain", p.kp.name)
		k.Check(shcrypto.VerifyEpochSecretKeyShare(shcrypto.ComputeEpochSecretKeyShare(g.SecretKeyShare, id), ref.shares[p.kp.idx], id),
			"dkg-secret-share", "%s's secret key share doesn't fit its public one", p.kp.name)
	}
	votes, err := s.w.bcast.GetNumVotes(nil, 0, ref.pub.Marshal())
	must(err)
	want := uint64(s.o.n)
	if c.o.dark {
		want--
	}
	k.Check(votes >= want, "broadcast", "%d of %d keypers broadcast the right eon key", votes, s.o.n)
	// how often they send a transaction
	s.w.mux.Lock()
	for _, p := range c.procs {
		if p.cuts > 0 {
			continue // it may not know what the node has accepted
		}
		start := 0
		var done map[string]int
		for i, x := range s.w.sent {
			for start < len(p.marks) && i >= p.marks[start] {
				start++
				done = map[string]int{}
			}
			if x.from != p.kp.addr || done == nil {
				continue
			}
			key := fmt.Sprintf("%s %x", x.tx.To(), x.tx.Data())
			done[key]++
			k.Count("transactions sent by keypers")
			if done[key] > 1 {
				name := "?"
				if len(x.tx.Data()) >= 4 {
					name = fmt.Sprintf("%x", x.tx.Data()[:4])
				}
				k.Failf("transaction-again", "%s sends a transaction (%s) %d times in one run, its %dth", p.kp.name, name, done[key], start)
			}
		}
	}
	s.w.mux.Unlock()
	// what they pay
	s.w.mux.Lock()
	for _, x := range s.w.sent {
		for _, p := range c.procs {
			if x.from == p.kp.addr {
				want := int64(float64(s.w.gasPrice) * p.kp.cfg.GasPriceMultiplier)
				k.Check(x.tx.GasPrice().Cmp(big.NewInt(want)) == 0, "gas-price", "%s offers a gas price of %s; the node suggests %d, its multiplier is %v", p.kp.name, x.tx.GasPrice(), s.w.gasPrice, p.kp.cfg.GasPriceMultiplier)
				k.Count("gas prices checked")
			}
		}
	}
	s.w.mux.Unlock()
	// the batches
	head := s.w.head()
	var all [][]byte
	for half := uint64(0); half < c.lastHs; half += 2 {
		b := half / 2
		rec, err := s.w.exe.GetReceipt(nil, half)
		must(err)
		acc, err := s.w.slash.Accusations(nil, half)
		must(err)
		k.Check(!acc.Accused, "accused", "the executor of batch %d was accused", b)
		if !k.Check(rec.Executed, "skipped", "batch %d was skipped, though enough keypers could execute it", b) {
			return
		}
		w, ok := s.wantBatch(b, ref, head)
		if !ok {
			panic(vt.InfraError("no shares to judge a batch with"))
		}
		k.Count("batches executed")
		k.C.Count("users' encrypted transactions executed", int64(len(w)))
		k.Check(bytes.Equal(rec.BatchHash[:], txsHash(w)), "executed-wrong", "batch %d was executed with something else than the %d transactions of the users", b, len(w))
		all = append(all, w...)
		if half+1 < c.lastHs {
			plain := s.batchTxs(b, contract.TransactionTypePlain, head)
			k.C.Count("users' plain transactions executed", int64(len(plain)))
			all = append(all, plain...)
		}
	}
	// what reached the target contract, over the whole history
	s.w.mux.Lock()
	logs := s.w.logs(0, head, []common.Address{s.w.addr.target}, nil)
	s.w.mux.Unlock()
	var got [][]byte
	for _, l := range logs {
		ev, err := s.w.target.ParseCalled(*l)
		must(err)
		got = append(got, ev.Transaction)
	}
	k.Check(len(got) >= len(all) && sameBytes(got[:len(all)], all), "executed-sequence", "the target contract saw %q, the users' transactions were %q", got, all)
	k.C.Count("slowed down", int64(c.slowest))
	var plan []string
	for _, p := range c.procs {
		plan = append(plan, fmt.Sprintf("%s stops=%d cuts=%d", p.kp.name, p.stops, p.cuts))
	}
	k.Eval(fmt.Sprintf("%v tries=%d hs=%d", plan, len(c.tries), c.lastHs), len(c.tries) > 10)
	if k.Idx == 0 {
		t := k.Trace()
		if len(t) > 40 {
			t = t[:40]
		}
		k.Sample(t)
	}
}

// judgeMessages: a keyper says everything once, save for what was under way when it was stopped
// or its connection broke, and never contradicts itself.
func (c *cluster) judgeMessages(p *keyperProc) {
	s, k := c.s, c.k
	c.mux.Lock()
	defer c.mux.Unlock()
	seen := map[string]int{}
	said := map[string]string{}
	again := map[string]int{}
	evals := map[string]string{}
	ref := s.ref(s.eons[0].Eon)
	var gammas *shcrypto.Gammas
	for _, t := range c.tries {
		if t.from != p.kp.addr {
			continue
		}
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(t.msg)
		must(err)
		if seen[string(b)]++; seen[string(b)] > 1 {
			again[fmt.Sprintf("%T", t.msg.Payload)]++
			continue
		}
		slot := ""
		switch m := t.msg.Payload.(type) {
		case *shmsg.Message_PolyCommitment:
			slot = fmt.Sprint("commitment ", m.PolyCommitment.Eon)
			if m.PolyCommitment.Eon == ref.eon {
				g, ok := gammasOf(m.PolyCommitment.Gammas)
				if ok {
					gammas = g
				}
			}
		case *shmsg.Message_PolyEval:
			for i, r := range m.PolyEval.Receivers {
				o := s.kp(common.BytesToAddress(r))
				if o == nil || m.PolyEval.Eon != ref.eon {
					k.Failf("evaluation-receiver", "%s sends an evaluation of eon %d to %x", p.kp.name, m.PolyEval.Eon, r)
					return
				}
				v, err := (*ecies.PrivateKey)(o.cfg.EncryptionKey).Decrypt(m.PolyEval.EncryptedEvals[i], nil, nil)
				if err != nil {
					k.Failf("evaluation-decrypt", "%s sends %s an evaluation it can't decrypt", p.kp.name, o.name)
					return
				}
				if old, ok := evals[o.name]; ok && old != string(v) {
					k.Failf("evaluation-changed", "%s sends %s two different evaluations", p.kp.name, o.name)
					return
				}
				evals[o.name] = string(v)
			}
		case *shmsg.Message_CheckIn:
			slot = "check-in"
		case *shmsg.Message_Accusation:
			slot = fmt.Sprint("accusation ", m.Accusation.Eon)
		case *shmsg.Message_Apology:
			slot = fmt.Sprint("apology ", m.Apology.Eon)
		case *shmsg.Message_EpochSecretKeyShare:
			slot = fmt.Sprint("share ", m.EpochSecretKeyShare.Eon, "/", m.EpochSecretKeyShare.Epoch)
		case *shmsg.Message_DecryptionSignature:
			slot = fmt.Sprint("signature ", m.DecryptionSignature.BatchIndex)
		}
		if slot == "" {
			continue
		}
		if old, ok := said[slot]; ok && old != string(b) {
			k.Failf("contradiction", "%s says two different things: %s", p.kp.name, slot)
			return
		}
		said[slot] = string(b)
		k.Count("statements compared")
	}
	if gammas != nil {
		for name, v := range evals {
			for _, o := range s.kps {
				if o.name == name {
					k.Check(shcrypto.VerifyPolyEval(o.idx, new2().SetBytes([]byte(v)), gammas, ref.threshold), "evaluation-wrong", "%s's evaluation for %s doesn't fit its commitment", p.kp.name, name)
					k.Count("evaluations verified")
				}
			}
		}
	}
	n := 0
	var what []string
	for t, x := range again {
		n += x
		what = append(what, fmt.Sprintf("%d× %s", x, t))
	}
	sort.Strings(what)
	k.C.Count("messages sent again", int64(n))
	if n > 0 {
		c.trace("%s sent again: %v", p.kp.name, what)
	}
	k.Check(n <= p.stops+p.cuts, "sent-again", "%s sends %d messages again (%v), though it was stopped only %d times and disturbed %d times", p.kp.name, n, what, p.stops, p.cuts)
}

func clusterCase(k *vt.K, o clusterOpts) {
	r := k.R
	o.sim = simOpts{n: 3 + r.Intn(2), phase: 30 + r.Intn(10), span: uint64(12 + r.Intn(6)), timeout: 60, follow: uint64(r.Intn(3)),
		stagger: uint64(1 + r.Intn(3)), userTxs: 25}
	o.sim.t = 2 + r.Intn(o.sim.n-1)
	if o.dark && o.sim.t == o.sim.n {
		o.sim.t--
	}
	c := newCluster(k, o)
	defer c.close()
	c.run()
}

// checkC28 runs the real program while its connections to the nodes fail.
func checkC28(c *vt.C) {
	needBinary()
	batches := uint64(c.N(4, 12))
	n := c.N(2, 40)
	together(
		func() {
			c.Cases("broken connections", n, 2, func(k *vt.K) {
				clusterCase(k, clusterOpts{faults: []string{"cut-eth", "cut-tm", "refuse-eth", "refuse-tm", "stall-eth", "stall-tm", "usr1"}, every: 700 * time.Millisecond, batches: batches})
			})
		},
		func() {
			c.Cases("long silence", c.N(2, 24), 2, func(k *vt.K) {
				o := clusterOpts{faults: []string{"cut-eth", "cut-tm"}, every: 2500 * time.Millisecond, batches: batches, silence: true}
				if k.Idx%2 == 1 {
					o = clusterOpts{faults: []string{"long-tm", "long-tm", "long-eth"}, every: 6 * time.Second, batches: batches}
				}
				clusterCase(k, o)
			})
		},
		func() {
			c.Cases("stopped in the dark", n, 2, func(k *vt.K) {
				clusterCase(k, clusterOpts{faults: []string{"dark-eth", "dark-tm", "dark-eth", "dark-tm", "cut-eth", "cut-tm", "term"}, every: 900 * time.Millisecond, batches: batches})
			})
		},
		func() {
			c.Cases("one lost for good", n, 2, func(k *vt.K) {
				clusterCase(k, clusterOpts{faults: []string{"cut-eth", "cut-tm", "stall-tm", "usr1", "kill"}, every: 1200 * time.Millisecond, batches: batches, dark: true})
			})
		})
	for _, f := range []string{"cut", "refuse", "stall", "dark"} {
		for _, n := range []string{"eth", "tm"} {
			c.Require("faults: "+f+"-"+n, 2)
		}
	}
	c.Require("stops while a connection is down", 3)
	c.Require("chains that stopped for a while", 1)
	c.Require("faults: long-tm", 1)
	c.Require("clusters run to the end", 4)
	c.Require("statements compared", 100)
	c.Require("batches executed", 20)
}

func addr4(a common.Address) string { return fmt.Sprintf("%x", a[:4]) }

func msgText(m *shmsg.Message) string {
	short := func(l [][]byte) (r []string) {
		for _, x := range l {
			if len(x) > 4 {
				x = x[:4]
			}
			r = append(r, fmt.Sprintf("%x", x))
		}
		return
	}
	switch p := m.Payload.(type) {
	case *shmsg.Message_PolyEval:
		return fmt.Sprintf("evaluations of eon %d for %v", p.PolyEval.Eon, short(p.PolyEval.Receivers))
	case *shmsg.Message_PolyCommitment:
		return fmt.Sprintf("commitment of eon %d", p.PolyCommitment.Eon)
	case *shmsg.Message_Accusation:
		return fmt.Sprintf("accusation of %v in eon %d", short(p.Accusation.Accused), p.Accusation.Eon)
	case *shmsg.Message_Apology:
		return fmt.Sprintf("apology to %v in eon %d", short(p.Apology.Accusers), p.Apology.Eon)
	}
	return fmt.Sprintf("%T", m.Payload)
}

func needBinary() {
	if _, err := os.Stat(os.Getenv("VERIF_SHUTTERMINT")); err != nil {
		panic(vt.InfraError("no shuttermint program to run"))
	}
	_ = crypto.Keccak256
}

func checkC27(c *vt.C) {
	needBinary()
	runScenarios(c, "C27", []scenario{
		{"twin timely", 3, 200, plain},
		{"twin byzantine", 6, 400, evil("silent", "eval", "commitment", "apology", "accuse", "share", "early", "sig", "execute", "blame")},
		{"twin reorganisations", 2, 150, reorganising},
		{"twin reconfiguration", 2, 200, reconfiguring},
		{"twin lagging", 4, 300, both(lagging, evil("eval", "apology", "accuse", "share", "sig", "execute", "blame"))},
		{"twin slow node", 3, 150, both(slow, evil("execute", "blame"))},
	})
	batches := uint64(c.N(4, 12))
	together(
		func() {
			c.Cases("kill", c.N(3, 60), 3, func(k *vt.K) {
				clusterCase(k, clusterOpts{faults: []string{"kill", "trap"}, every: 900 * time.Millisecond, batches: batches, crash: "kill"})
			})
		},
		func() {
			c.Cases("stop", c.N(3, 60), 3, func(k *vt.K) {
				clusterCase(k, clusterOpts{faults: []string{"term"}, every: 900 * time.Millisecond, batches: batches, crash: "term"})
			})
		})
	c.Require("decisions compared with those after a restart", 3000)
	c.Require("decisions with actions", 500)
	c.Require("clusters run to the end", 4)
	c.Require("stops: kill", 10)
	c.Require("killed while sending", 3)
	c.Require("orderly shutdowns", 20)
	c.Require("statements compared", 100)
	c.Require("batches executed", 20)
}

func together(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}
