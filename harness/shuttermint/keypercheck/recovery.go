package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// A keyper that restarts has to go on as if nothing had happened: before every decision of an
// honest keyper its state is saved and loaded, and what was loaded has to decide the same.

func (kp *simKeyper) twinConfig() keyper.Config {
	cfg := kp.cfg
	cfg.DBDir = filepath.Join(kp.dir, "twin")
	return cfg
}

// saveTwin saves a keyper's state, as it does after every decision.
func (s *sim) saveTwin(kp *simKeyper) {
	cfg := kp.twinConfig()
	must(os.MkdirAll(cfg.DBDir, 0o755))
	if err := saveState(cfg, kp.st, observe.World{Shutter: kp.sh, MainChain: kp.mc}); err != nil {
		s.k.Failf("save-state", "%s can't save its state: %v", kp.name, err)
	}
}

// twin loads what a keyper saved after its last decision and looks at the chain that the keyper
// looked at since then.
func (s *sim) twin(kp *simKeyper, mainChain bool) (*keyper.State, observe.World, bool) {
	cfg := kp.twinConfig()
	if _, err := os.Stat(cfg.DBDir); err != nil {
		return nil, observe.World{}, true
	}
	n := keyper.NewKeyper(cfg)
	if err := n.LoadState(); err != nil {
		s.k.Failf("load-state", "%s can't load its state: %v", kp.name, err)
		return nil, observe.World{}, false
	}
	w := n.CurrentWorld()
	var err error
	if mainChain {
		w.MainChain, err = w.MainChain.SyncToHead(context.Background(), kp.caller)
	} else {
		w.Shutter, err = w.Shutter.SyncToHead(context.Background(), s.tm)
	}
	if err != nil {
		panic(vt.InfraError("sync after a restart: " + err.Error()))
	}
	return n.State, w, true
}

// decisions lists actions with their content, and the eons whose polynomials were made just now.
func (s *sim) decisions(acts []fx.IAction) []string {
	fresh := map[uint64]bool{}
	for _, a := range acts {
		if m, ok := a.(*fx.SendShuttermintMessage); ok {
			if p, ok := m.Msg.Payload.(*shmsg.Message_PolyCommitment); ok {
				fresh[p.PolyCommitment.Eon] = true
			}
		}
	}
	var l []string
	for _, a := range acts {
		m, ok := a.(*fx.SendShuttermintMessage)
		if !ok {
			l = append(l, canonAction(a))
			continue
		}
		switch p := m.Msg.Payload.(type) {
		case *shmsg.Message_PolyCommitment:
			l = append(l, fmt.Sprintf("commitment %d with %d", p.PolyCommitment.Eon, len(p.PolyCommitment.Gammas)))
		case *shmsg.Message_PolyEval:
			var r []string
			for i, a := range p.PolyEval.Receivers {
				x := fmt.Sprintf("%x", a)
				if o := s.kp(common.BytesToAddress(a)); o != nil && !fresh[p.PolyEval.Eon] {
					v, err := (*ecies.PrivateKey)(o.cfg.EncryptionKey).Decrypt(p.PolyEval.EncryptedEvals[i], nil, nil)
					x += fmt.Sprintf(":%x,%v", v, err)
				}
				r = append(r, x)
			}
			sort.Strings(r)
			l = append(l, fmt.Sprintf("evaluations %d %v", p.PolyEval.Eon, r))
		case *shmsg.Message_Apology:
			var r []string
			for i, a := range p.Apology.Accusers {
				r = append(r, fmt.Sprintf("%x:%x", a, p.Apology.PolyEvals[i]))
			}
			sort.Strings(r)
			l = append(l, fmt.Sprintf("apologies %d %v", p.Apology.Eon, r))
		case *shmsg.Message_Accusation:
			var r []string
			for _, a := range p.Accusation.Accused {
				r = append(r, fmt.Sprintf("%x", a))
			}
			sort.Strings(r)
			l = append(l, fmt.Sprintf("accusations %d %v", p.Accusation.Eon, r))
		default:
			l = append(l, canonAction(a))
		}
	}
	return l
}

// restartable compares what a keyper decides with what it would decide after a restart.
func (s *sim) restartable(kp *simKeyper, acts []fx.IAction, st *keyper.State, w observe.World) {
	k := s.k
	d := keyper.Decider{Config: kp.cfg, State: st, Shutter: w.Shutter, MainChain: w.MainChain, Actions: []fx.IAction{},
		PhaseLength: keyper.NewConstantPhaseLength(int64(s.o.phase))}
	if msg := vt.NoPanic(d.Decide); msg != "" {
		k.Failf("restart-panic", "after a restart %s panics when deciding: %s", kp.name, msg)
		return
	}
	a, b := s.decisions(acts), s.decisions(d.Actions)
	k.Count("decisions compared with those after a restart")
	if len(a) > 0 {
		k.Count("decisions with actions")
	}
	for _, x := range a {
		k.Seen("kinds of actions", strings.SplitN(x, " ", 2)[0])
	}
	if fmt.Sprint(a) == fmt.Sprint(b) {
		return
	}
	// actions of one step may come in any order where maps are involved
	sa, sb := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(sa)
	sort.Strings(sb)
	if fmt.Sprint(sa) == fmt.Sprint(sb) {
		k.Count("decisions in another order")
		return
	}
	only := func(x, y []string) (r []string) {
		n := map[string]int{}
		for _, e := range y {
			n[e]++
		}
		for _, e := range x {
			if n[e]--; n[e] < 0 {
				if len(e) > 120 {
					e = e[:120] + "..."
				}
				r = append(r, e)
			}
		}
		return
	}
	k.Failf("restart-decides", "at main chain block %d, shuttermint block %d, %s decides %v, after a restart it would decide %v instead", kp.mc.CurrentBlock, kp.sh.CurrentBlock, kp.name, only(sa, sb), only(sb, sa))
}
