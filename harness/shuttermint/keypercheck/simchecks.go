package main

import (
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// simulate runs one simulation and watches it for the given property.
func simulate(k *vt.K, o simOpts, watch ...string) {
	s := newSim(k, o)
	defer s.close()
	s.watch = map[string]bool{}
	for _, w := range watch {
		s.watch[w] = true
	}
	k.Tracef("%+v", o)
	s.run()
}

// randOpts draws the parameters that all scenarios share.
func randOpts(k *vt.K) simOpts {
	r := k.R
	o := simOpts{n: 1 + r.Intn(5), phase: 7 + r.Intn(4), span: uint64(3 + r.Intn(6)), follow: uint64(r.Intn(4)),
		stagger: uint64(r.Intn(6)), ticks: 90, userTxs: 40}
	o.t = 1 + r.Intn(o.n)
	o.timeout = uint64(30 + r.Intn(20))
	return o
}

// withByz makes some keypers byzantine.
func (o simOpts) withByz(k *vt.K, kinds ...string) simOpts {
	max := o.t - 1
	if o.n-o.t < max {
		max = o.n - o.t
	}
	if max > 0 {
		o.byz = 1 + k.R.Intn(max)
		o.byzKinds = kinds
	}
	return o
}

func checkC20(c *vt.C) {
	c.Cases("timely", c.N(24, 900), 0, func(k *vt.K) {
		o := randOpts(k)
		o.ticks = 3*o.phase + 30
		simulate(k, o, "C20")
	})
	c.Cases("byzantine", c.N(48, 2000), 0, func(k *vt.K) {
		o := randOpts(k)
		if o.n < 3 {
			o.n, o.t = 3+k.R.Intn(3), 2
		}
		o.ticks = 3*o.phase + 30
		simulate(k, o.withByz(k, "silent", "eval", "commitment", "apology", "accuse", "broadcast", "vote"), "C20")
	})
	c.Cases("late", c.N(24, 900), 0, func(k *vt.K) {
		o := randOpts(k)
		o.ticks = 6*o.phase + 30
		o.lag = 20 + k.R.Intn(50)
		o.restart = 20
		simulate(k, o.withByz(k, "silent", "eval", "commitment", "apology", "accuse"), "C20")
	})
	c.Cases("outages", c.N(32, 1200), 0, func(k *vt.K) {
		o := randOpts(k)
		o.ticks = 6*o.phase + 30
		o.outage = 10 + k.R.Intn(60)
		o.second = k.R.Intn(3) == 0
		simulate(k, o.withByz(k, "silent", "eval", "commitment", "apology", "accuse"), "C20")
	})
	c.Cases("second config", c.N(24, 900), 0, func(k *vt.K) {
		o := randOpts(k)
		o.ticks = 5*o.phase + 30
		o.second = true
		if k.R.Intn(2) == 0 {
			o.outage = 20 + k.R.Intn(60)
		}
		simulate(k, o.withByz(k, "silent", "eval", "commitment", "apology", "accuse"), "C20")
	})
	c.Cases("tardy", c.N(24, 900), 0, func(k *vt.K) {
		o := randOpts(k)
		o.phase += 5
		o.ticks = 3*o.phase + 30
		o.tardy = true
		simulate(k, o.withByz(k, "eval", "accuse", "apology"), "C20")
	})
	c.Cases("restarts", c.N(24, 900), 0, func(k *vt.K) {
		o := randOpts(k)
		o.ticks = 3*o.phase + 30
		o.restart = 30
		simulate(k, o.withByz(k, "eval", "apology", "accuse", "commitment"), "C20")
	})
}

// scenario is a family of simulations.
type scenario struct {
	name            string
	quick, thorough int
	opts            func(k *vt.K, o simOpts) simOpts
}

func several(k *vt.K, o simOpts) simOpts {
	if o.n < 3 {
		o.n, o.t = 3+k.R.Intn(3), 2
	}
	if o.t == 1 && o.n > 2 {
		o.t = 2
	}
	if o.t == o.n {
		o.t--
	}
	return o
}

func runScenarios(c *vt.C, prop string, l []scenario) {
	for _, sc := range l {
		sc := sc
		c.Cases(sc.name, c.N(sc.quick, sc.thorough), 0, func(k *vt.K) {
			o := randOpts(k)
			o.ticks = 3*o.phase + 60
			simulate(k, sc.opts(k, o), prop)
		})
	}
}

func plain(k *vt.K, o simOpts) simOpts { return o }

func restarting(k *vt.K, o simOpts) simOpts {
	o.restart = 20
	return o
}

func reorganising(k *vt.K, o simOpts) simOpts {
	o.reorgs = true
	o.follow = 1 + uint64(k.R.Intn(4))
	return o
}

func reconfiguring(k *vt.K, o simOpts) simOpts {
	o = several(k, o)
	o.second = true
	o.ticks = 6*o.phase + 90
	return o
}

func away(k *vt.K, o simOpts) simOpts {
	o = several(k, o)
	o.outage = 15 + k.R.Intn(60)
	o.second = k.R.Intn(2) == 0
	o.ticks = 5*o.phase + 80
	return o
}

func across(k *vt.K, o simOpts) simOpts {
	o = several(k, o)
	o.second, o.across = true, true
	o.ticks = 4*o.phase + 120
	return o
}

func lagging(k *vt.K, o simOpts) simOpts {
	o.lag = 20 + k.R.Intn(50)
	o.restart = 10
	o.ticks += 40
	return o
}

func slow(k *vt.K, o simOpts) simOpts {
	o = several(k, o)
	o.slowEth = true
	return o
}

func evil(kinds ...string) func(k *vt.K, o simOpts) simOpts {
	return func(k *vt.K, o simOpts) simOpts { return several(k, o).withByz(k, kinds...) }
}

func both(a, b func(k *vt.K, o simOpts) simOpts) func(k *vt.K, o simOpts) simOpts {
	return func(k *vt.K, o simOpts) simOpts { return a(k, b(k, o)) }
}

func checkC21(c *vt.C) {
	runScenarios(c, "C21", []scenario{
		{"timely", 10, 500, plain},
		{"restarts", 6, 400, restarting},
		{"reorganisations", 8, 400, reorganising},
		{"byzantine", 10, 800, evil("share", "early", "silent", "vote")},
		{"reconfiguration", 10, 400, reconfiguring},
		{"lagging", 8, 500, lagging},
		{"outages", 12, 500, away},
		{"away at the change", 16, 500, across},
	})
}

func checkC22(c *vt.C) {
	runScenarios(c, "C22", []scenario{
		{"timely", 8, 300, plain},
		{"byzantine", 16, 1000, evil("share", "early", "silent", "vote")},
		{"restarts", 8, 600, both(restarting, evil("share", "early"))},
		{"reconfiguration", 6, 300, reconfiguring},
		{"lagging", 10, 700, both(lagging, evil("share", "early"))},
		{"outages", 8, 400, both(evil("share", "early"), away)},
	})
}

func checkC23(c *vt.C) {
	madeWorlds(c, false)
	runScenarios(c, "C23", []scenario{
		{"timely", 10, 500, plain},
		{"byzantine", 12, 900, evil("share", "early", "silent", "sig", "execute")},
		{"restarts", 6, 400, restarting},
		{"reorganisations", 8, 400, reorganising},
		{"reconfiguration", 6, 400, reconfiguring},
		{"lagging", 8, 500, lagging},
		{"slow node", 10, 500, slow},
		{"outages", 10, 500, away},
		{"away at the change", 8, 500, across},
	})
}

func checkC24(c *vt.C) {
	madeWorlds(c, true)
	runScenarios(c, "C24", []scenario{
		{"byzantine", 20, 1200, evil("sig", "execute", "blame")},
		{"restarts", 8, 500, both(restarting, evil("sig", "execute", "blame"))},
		{"reconfiguration", 6, 400, both(reconfiguring, evil("execute", "blame"))},
		{"lagging", 8, 500, both(lagging, evil("sig", "execute", "blame"))},
		{"slow node", 8, 500, both(slow, evil("sig", "execute", "blame"))},
		{"outages", 10, 500, both(evil("sig", "execute", "blame"), away)},
	})
}
