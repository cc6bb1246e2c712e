package main

import (
	"bufio"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

func mkdir(d string) {
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(vt.InfraError(err.Error()))
	}
}
func rmdir(d string) { _ = os.RemoveAll(d) }

// history is a recorded chain with the answers of an application that never restarted.
type history struct {
	Genesis genesis
	Blocks  [][][]byte
	// Answers[i] are the answers to the transactions and the end of block i+1.
	Answers [][]string
	// Probes[i] are transactions CheckTx is asked about after block i+1 and the answers.
	Probes  [][][]byte
	ProbeOK [][]bool
}

func makeHistory(k *vt.K, nBlocks, perBlock int) *history {
	g := randGenesis(k.R, k.R.Intn(10) == 0)
	m := g.model()
	gn := newGen(k.R, m, []string{catAuth, catConfig, catStart, catDKG, ""}[k.R.Intn(5)])
	s := newSut(g, "")
	h := &history{Genesis: g}
	for b := int64(1); b <= int64(nBlocks); b++ {
		var txs [][]byte
		for i := k.R.Intn(perBlock); i > 0; i-- {
			tx := gn.next()
			m.deliver(tx.raw)
			txs = append(txs, tx.raw)
			k.Tracef("block %d: %s", b, tx.desc)
		}
		m.endBlock(b)
		h.Blocks = append(h.Blocks, txs)
		h.Answers = append(h.Answers, runBlock(s, b, txs))
		m.commit()
		var probes [][]byte
		var oks []bool
		for i := k.R.Intn(6); i > 0; i-- {
			tx := gn.next()
			ok := s.checkTx(tx.raw) // reset by the next commit
			probes = append(probes, tx.raw)
			oks = append(oks, ok)
		}
		m.commit()
		h.Probes = append(h.Probes, probes)
		h.ProbeOK = append(h.ProbeOK, oks)
	}
	return h
}

func runBlock(s *sut, h int64, txs [][]byte) []string {
	var got []string
	s.begin(h)
	for _, tx := range txs {
		got = append(got, s.deliver(tx).raw)
	}
	_, e := s.endBlock(h)
	return append(got, e, s.commit())
}

// probe asks CheckTx right after the given block and resets its state again.
func (hi *history) probe(k *vt.K, s *sut, block int) bool {
	for i, tx := range hi.Probes[block-1] {
		got := s.checkTx(tx)
		k.Count("probes")
		if got != hi.ProbeOK[block-1][i] {
			k.Failf("probe", "after a restart at block %d, CheckTx of %.40x... says %v, expected %v", block, tx, got, hi.ProbeOK[block-1][i])
			return false
		}
	}
	return true
}

// replay feeds blocks from..to and compares the answers.
func (hi *history) replay(k *vt.K, s *sut, from, to int) bool {
	for b := from; b <= to; b++ {
		got := runBlock(s, int64(b), hi.Blocks[b-1])
		for i, a := range hi.Answers[b-1] {
			k.Count("comparisons")
			if got[i] != a {
				k.Failf("replay", "after a restart, block %d answer %d of %d is %q instead of %q", b, i, len(got), got[i], a)
				return false
			}
		}
		if s.height() != int64(b) {
			k.Failf("height", "after block %d the application reports height %d", b, s.height())
			return false
		}
	}
	return true
}

func copyFile(src, dst string) {
	b, err := os.ReadFile(src)
	if err == nil {
		err = os.WriteFile(dst, b, 0o644)
	}
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
}

func checkC11(c *vt.C) {
	app.PersistMinDuration = 0
	c.Cases("restart", c.N(500, 12000), 0, func(k *vt.K) {
		n := 4 + k.R.Intn(10)
		hi := makeHistory(k, n, 14)
		dir := filepath.Join(c.Scratch, fmt.Sprintf("c11-%d", k.Idx))
		mkdir(dir)
		defer rmdir(dir)
		path := filepath.Join(dir, "state.gob")
		saves := map[int]string{}
		s, err := loadSut(path) // nothing there yet
		if err != nil {
			k.Failf("load", "cannot start without a saved state: %v", err)
			return
		}
		s.a.DevMode = hi.Genesis.Dev
		s.a.InitChain(hi.Genesis.request())
		restarts := 0
		key := ""
		for b := 1; b <= n; {
			away := k.R.Intn(12) == 0 // saving fails during this block
			if away {
				if os.Rename(dir, dir+".away") != nil {
					away = false
				}
			}
			ok := hi.replay(k, s, b, b)
			if away {
				k.Count("failed_saves")
				_ = os.Rename(dir+".away", dir)
			}
			if !ok {
				return
			}
			key += fmt.Sprint(len(hi.Blocks[b-1]))
			if !away {
				saves[b] = filepath.Join(dir, fmt.Sprintf("save-%d", b))
				copyFile(path, saves[b])
			}
			b++
			if k.R.Intn(3) > 0 {
				continue
			}
			// restart, maybe from an older save, maybe with the remains of an interrupted one
			at := -1
			for o := range saves {
				if at < 0 || (k.R.Intn(3) > 0 && o > at) {
					at = o
				}
			}
			if at < 0 {
				continue
			}
			copyFile(saves[at], path)
			if k.R.Intn(2) == 0 {
				full, err := os.ReadFile(path)
				if err == nil {
					_ = os.WriteFile(path+".tmp", append(full[:k.R.Intn(len(full))], 0xff), 0o644)
				}
				k.Count("stale_tmp")
			}
			s, err = loadSut(path)
			if err != nil {
				k.Failf("load", "cannot load the state saved after block %d: %v", at, err)
				return
			}
			restarts++
			k.Count("restarts")
			if !k.Check(s.height() == int64(at), "height", "state saved after block %d reports height %d", at, s.height()) {
				return
			}
			k.Tracef("restart from block %d after block %d", at, b-1)
			key += fmt.Sprintf("r%d", at)
			if k.R.Intn(2) == 0 {
				if !hi.probe(k, s, at) {
					return
				}
				// a restarted node loses its CheckTx counts
				if s, err = loadSut(path); err != nil {
					k.Failf("load", "cannot load twice: %v", err)
					return
				}
			}
			for o := range saves {
				if o > at {
					delete(saves, o)
				}
			}
			b = at + 1
		}
		if len(hi.Blocks) > 0 && len(hi.Blocks[0]) > 0 {
			key += hex.EncodeToString(hi.Blocks[0][0])
		}
		k.Eval(key, restarts > 0)
		if k.Idx%97 == 0 {
			k.Sample(map[string]interface{}{"blocks": n, "restarts": restarts})
		}
	})
	c.Cases("kill", c.N(16, 300), 4, func(k *vt.K) { killCase(k) })
	if _, err := exec.LookPath("strace"); err == nil && straceWorks() {
		c.Cases("crashpoint", c.N(32, 400), 6, func(k *vt.K) { crashpointCase(k) })
		c.Cases("order", c.N(6, 30), 4, func(k *vt.K) { orderCase(k) })
	} else {
		c.Count("strace_unavailable", 1)
	}
	c.Require("comparisons", 3000)
	c.Require("kills", 10)
}

func straceWorks() bool { return exec.Command("strace", "-f", "-o", "/dev/null", "true").Run() == nil }

// persistChild runs a recorded chain from the saved state on, saving after every block, and
// reports every committed height. It's meant to be killed.
func persistChild(args []string) {
	hi := &history{}
	f, err := os.Open(args[0])
	if err == nil {
		err = gob.NewDecoder(f).Decode(hi)
	}
	if err != nil {
		fmt.Println("child:", err)
		os.Exit(9)
	}
	app.PersistMinDuration = 0
	s, err := loadSut(args[1])
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(8)
	}
	s.a.DevMode = hi.Genesis.Dev
	h := s.height()
	if h == 0 {
		s.a.InitChain(hi.Genesis.request())
	}
	fmt.Printf("start %d\n", h)
	for b := h + 1; b <= int64(len(hi.Blocks)); b++ {
		got := runBlock(s, b, hi.Blocks[b-1])
		for i, a := range hi.Answers[b-1] {
			if got[i] != a {
				fmt.Printf("diverge block %d answer %d: %q instead of %q\n", b, i, got[i], a)
				os.Exit(7)
			}
		}
		fmt.Printf("committed %d\n", b)
	}
	fmt.Println("done")
}

type crashEnv struct {
	dir, blocks, path string
	hi                *history
}

func newCrashEnv(k *vt.K, nBlocks int) *crashEnv {
	e := &crashEnv{hi: makeHistory(k, nBlocks, 10)}
	e.dir = filepath.Join(k.C.Scratch, fmt.Sprintf("c11-%s-%d", k.Name, k.Idx))
	mkdir(e.dir)
	e.blocks = filepath.Join(e.dir, "blocks")
	e.path = filepath.Join(e.dir, "state.gob")
	f, err := os.Create(e.blocks)
	if err == nil {
		err = gob.NewEncoder(f).Encode(e.hi)
		f.Close()
	}
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
	return e
}

// run starts a child (under the given strace options, if any) and kills it after the given number
// of committed blocks and delay; returns the last height reported, and if it finished.
func (e *crashEnv) run(k *vt.K, strace []string, killAfter int, delay time.Duration) (last int, done bool) {
	self, err := os.Executable()
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
	args := []string{self, "persist-child", e.blocks, e.path}
	if strace != nil {
		args = append(append([]string{"strace", "-f", "-qq"}, strace...), args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Stderr = nil
	out, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
	timer := time.AfterFunc(60*time.Second, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	defer timer.Stop()
	last = -1
	n := 0
	sc := bufio.NewScanner(out)
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "start "):
			last, _ = strconv.Atoi(l[6:])
		case strings.HasPrefix(l, "committed "):
			last, _ = strconv.Atoi(l[10:])
			n++
		case l == "done":
			done = true
		case strings.HasPrefix(l, "load:"):
			k.Failf("load", "cannot load the state after a crash: %s", l)
		case strings.HasPrefix(l, "diverge"):
			k.Failf("replay", "after a crash and replay: %s", l)
		case strings.HasPrefix(l, "child:"):
			panic(vt.InfraError(l))
		}
		if killAfter >= 0 && n >= killAfter {
			time.Sleep(delay)
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			killAfter = 1 << 30
		}
	}
	_ = cmd.Wait()
	return last, done
}

// inspect loads what is on disk after a crash.
func (e *crashEnv) inspect(k *vt.K, atLeast, atMost int, what string) bool {
	s, err := loadSut(e.path)
	if err != nil {
		k.Failf("load", "%s: the saved state cannot be loaded: %v", what, err)
		return false
	}
	h := int(s.height())
	k.Seen("crash_heights", fmt.Sprint(h-atLeast))
	return k.Check(h >= atLeast && h <= atMost, "lost", "%s: the saved state has height %d, expected %d to %d", what, h, atLeast, atMost)
}

func killCase(k *vt.K) {
	n := 60
	e := newCrashEnv(k, n)
	defer rmdir(e.dir)
	key := ""
	for round := 0; round < 40 && !k.Failed(); round++ {
		after := k.R.Intn(6)
		delay := time.Duration(k.R.Intn(1500)) * time.Microsecond
		last, done := e.run(k, nil, after, delay)
		if k.Failed() {
			return
		}
		if done {
			break
		}
		k.Count("kills")
		key += fmt.Sprintf("%d@%v ", last, delay)
		k.Tracef("killed after height %d was reported", last)
		if last > 0 && !e.inspect(k, last, last+64, "after SIGKILL") {
			return
		}
	}
	e.run(k, nil, -1, 0)
	if k.Failed() {
		return
	}
	e.inspect(k, n, n, "at the end")
	k.Eval(key, true)
	if k.Idx == 0 {
		k.Sample("killed at " + key)
	}
}

// crashpointCase kills the process at a chosen system call on the state files, or lets the call fail.
func crashpointCase(k *vt.K) {
	n := 12
	e := newCrashEnv(k, n)
	defer rmdir(e.dir)
	calls := []string{"openat", "write", "fsync,fdatasync", "rename,renameat,renameat2", "close"}
	call := calls[k.Idx%len(calls)]
	when := 1 + k.R.Intn(6)
	if call == "write" {
		when = 1 + k.R.Intn(30)
	}
	action := "signal=SIGKILL"
	suffix := ""
	if k.Idx%2 == 1 && call != "close" {
		action = "error=" + []string{"EIO", "ENOSPC"}[k.R.Intn(2)]
		suffix = []string{"", "+", "+2"}[k.R.Intn(3)]
	}
	if call == "openat" && action != "signal=SIGKILL" {
		when++ // the first one loads the state
	}
	opt := []string{"-o", "/dev/null", "-P", e.path, "-P", e.path + ".tmp", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:%s:when=%d%s", call, action, when, suffix)}
	last, done := e.run(k, opt, -1, 0)
	what := fmt.Sprintf("%s at %s number %d%s", action, call, when, suffix)
	k.Tracef("%s: last height %d done %v", what, last, done)
	k.Seen("crash_points", call+" "+action)
	if k.Failed() {
		return
	}
	atLeast := 0
	if action == "signal=SIGKILL" {
		if !done {
			k.Count("kills_at_syscalls")
		}
		if last > 0 {
			atLeast = last
		}
	} else {
		k.Count("failing_syscalls")
		if !k.Check(done, "died", "%s: the application stops when it cannot save its state", what) {
			return
		}
	}
	if _, err := os.Stat(e.path); err == nil || atLeast > 0 {
		if !e.inspect(k, atLeast, n, "after "+what) {
			return
		}
	}
	e.run(k, nil, -1, 0)
	if k.Failed() {
		return
	}
	// when all saves after the last restart worked, everything is there
	s, err := loadSut(e.path)
	if err != nil {
		k.Failf("load", "after %s and a restart: %v", what, err)
		return
	}
	if s.height() < int64(n) && action == "signal=SIGKILL" {
		k.Failf("lost", "after %s and a complete run the saved state has height %d of %d", what, s.height(), n)
		return
	}
	k.Eval(what+fmt.Sprint(k.Idx), true)
	if k.Idx < 2 {
		k.Sample(what)
	}
}

var (
	reWrite  = regexp.MustCompile(`(write|pwrite64|writev|ftruncate)\(\d+<([^>]*)>`)
	reSync   = regexp.MustCompile(`(fsync|fdatasync)\(\d+<([^>]*)>`)
	reOpen   = regexp.MustCompile(`openat\([^"]*"([^"]*)", ([A-Z_|]+)`)
	reRename = regexp.MustCompile(`rename(?:at2?)?\((?:AT_FDCWD(?:<[^>]*>)?, )?"([^"]*)", (?:AT_FDCWD(?:<[^>]*>)?, )?"([^"]*)"`)
)

// joinCalls joins the lines of calls strace shows in two parts.
func joinCalls(b []byte) (calls []string) {
	begun := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		pid := strings.SplitN(l, " ", 2)[0]
		if i := strings.Index(l, "<unfinished ...>"); i >= 0 {
			begun[pid] = l[:i]
			continue
		}
		if i := strings.Index(l, " resumed>"); i >= 0 && begun[pid] != "" {
			l = strings.TrimRight(begun[pid], " ") + l[i+len(" resumed>"):]
			delete(begun, pid)
		}
		calls = append(calls, l)
	}
	return
}

// orderCase checks the order of the system calls of a save: what is renamed to the final name was
// synced after the last write, and the final name is never written to directly. In every second
// case some of the calls fail; what couldn't be written or synced isn't renamed.
func orderCase(k *vt.K) {
	e := newCrashEnv(k, 8)
	defer rmdir(e.dir)
	logp := filepath.Join(e.dir, "trace")
	opt := []string{"-y", "-o", logp, "-e", "trace=openat,write,pwrite64,writev,ftruncate,fsync,fdatasync,rename,renameat,renameat2"}
	failing := k.Idx%2 == 1
	if failing {
		call := []string{"fsync,fdatasync", "write"}[k.Idx/2%2]
		when := 1 + k.R.Intn(5)
		if call == "write" {
			when = 1 + k.R.Intn(25)
		}
		inj := fmt.Sprintf("inject=%s:error=%s:when=%d+%d", call, []string{"EIO", "ENOSPC"}[k.R.Intn(2)], when, 1+k.R.Intn(4))
		k.Tracef("%s", inj)
		opt = append(opt, "-P", e.path, "-P", e.path+".tmp", "-e", inj)
	}
	_, done := e.run(k, opt, -1, 0)
	if !done {
		k.Count("untraced")
		return
	}
	b, err := os.ReadFile(logp)
	if err != nil {
		k.Count("untraced")
		return
	}
	dirty := map[string]string{}
	renames := 0
	for _, l := range joinCalls(b) {
		failed := strings.Contains(l, "(INJECTED)")
		if failed {
			k.Count("failing_calls_observed")
		}
		if m := reWrite.FindStringSubmatch(l); m != nil {
			if failed {
				dirty[m[2]] = "written completely"
			} else if dirty[m[2]] == "" {
				dirty[m[2]] = "synced"
			}
			if m[2] == e.path {
				k.Failf("in-place", "the saved state is overwritten in place: %.200s", l)
				return
			}
		} else if m := reSync.FindStringSubmatch(l); m != nil {
			if !failed && dirty[m[2]] == "synced" {
				dirty[m[2]] = ""
			}
		} else if m := reOpen.FindStringSubmatch(l); m != nil && strings.Contains(m[2], "O_TRUNC") {
			if m[1] == e.path {
				k.Failf("in-place", "the saved state is truncated in place: %.200s", l)
				return
			}
			dirty[m[1]] = ""
		} else if m := reRename.FindStringSubmatch(l); m != nil && m[2] == e.path {
			renames++
			k.Count("renames_observed")
			if d := dirty[m[1]]; d != "" {
				k.Failf("unsynced", "the new state replaces the old one before it's %s: %.200s", d, l)
				return
			}
		}
	}
	k.Tracef("%d renames observed", renames)
	k.Eval(fmt.Sprint("order", k.Idx), renames > 0 || failing)
}
