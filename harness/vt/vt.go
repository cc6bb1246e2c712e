// Package vt is the reporting core shared by all checks: it runs the cases of one property,
// counts what the monitors observed, records violations with a replay file, honours the
// known-findings file and writes the evidence file.
//
// It is injected into both Go modules of the repository through a build overlay, so it must only
// use the standard library.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Exit codes understood by run.sh.
const (
	ExitOK        = 0
	ExitViolation = 10
	ExitInfra     = 20 // the harness itself could not run: inconclusive
)

// Check is one property check.
type Check struct {
	ID    string
	Level string
	Rule  string
	// Run drives the workload.
	Run func(c *C)
	// Assumptions listed in the evidence file.
	Assumptions []string
	// CaseLimit is how long a case may take; a longer one is a violation (it hangs).
	CaseLimit time.Duration
	// MinEvals is the least number of evaluations for a conclusive run.
	MinEvals int64
}

// C is the context of a running check.
type C struct {
	Check   Check
	Tier    string
	Seed    int64
	OnlyIdx int // replay a single case index, -1 for all
	OutDir  string
	Scratch string

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	samples    []interface{}
	maxSamples int
	counters   map[string]int64
	sets       map[string]map[string]int64
	violations int
	viols      []string
	known      map[string]string // sig -> text
	knownSeen  map[string]bool
	start      time.Time
	infra      string
	sigSeen    map[string]int
	running    map[*K]time.Time
	wallbase   float64
	finishing  sync.Once
}

// Thorough tells if this is the thorough tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// N picks a size by tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// K is one case.
type K struct {
	C    *C
	R    *rand.Rand
	Name string
	Idx  int
	mu   sync.Mutex
	tr   []string
	bad  bool
}

// Tracef records a step of the case, used for the replay file and samples.
func (k *K) Tracef(f string, a ...interface{}) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.tr) < 4000 {
		k.tr = append(k.tr, fmt.Sprintf(f, a...))
	}
}

// Trace returns the recorded steps.
func (k *K) Trace() []string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]string{}, k.tr...)
}

// Failed tells if the case failed.
func (k *K) Failed() bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.bad
}

// Failf records a violation with a short signature that identifies what fails.
func (k *K) Failf(sig string, f string, a ...interface{}) {
	k.mu.Lock()
	k.bad = true
	k.mu.Unlock()
	k.C.violate(sig, fmt.Sprintf(f, a...), k)
}

// Check fails unless ok.
func (k *K) Check(ok bool, sig string, f string, a ...interface{}) bool {
	if !ok {
		k.Failf(sig, f, a...)
	}
	return ok
}

// Count increments a coverage counter.
func (k *K) Count(name string) { k.C.Count(name, 1) }

// Seen records a member of a named set (distinct things observed).
func (k *K) Seen(set, member string) { k.C.Seen(set, member) }

// Eval counts one evaluation; key identifies the case, nontrivial says if it counts as such.
func (k *K) Eval(key string, nontrivial bool) { k.C.Eval(key, nontrivial) }

// Sample records a sample.
func (k *K) Sample(s interface{}) { k.C.Sample(s) }

func h64(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Eval counts one evaluation.
func (c *C) Eval(key string, nontrivial bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if nontrivial {
		c.distinct[h64(key)] = struct{}{}
	}
}

// Count adds to a coverage counter.
func (c *C) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Counter reads a coverage counter.
func (c *C) Counter(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

// Seen records a member of a named set.
func (c *C) Seen(set, member string) {
	c.mu.Lock()
	m := c.sets[set]
	if m == nil {
		m = map[string]int64{}
		c.sets[set] = m
	}
	if len(m) < 200000 || m[member] > 0 {
		m[member]++
	}
	c.mu.Unlock()
}

// SeenCount returns the size of a named set.
func (c *C) SeenCount(set string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.sets[set])
}

// Sample records a sample case.
func (c *C) Sample(s interface{}) {
	c.mu.Lock()
	if len(c.samples) < c.maxSamples {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Infra marks the run inconclusive.
func (c *C) Infra(f string, a ...interface{}) {
	c.mu.Lock()
	if c.infra == "" {
		c.infra = fmt.Sprintf(f, a...)
	}
	c.mu.Unlock()
}

// Require marks the run inconclusive unless the monitors observed at least min of the counter.
func (c *C) Require(counter string, min int64) {
	if onlyName != "" {
		return
	}
	if n := c.Counter(counter); n < min {
		c.Infra("monitor observed only %d of %q, need %d", n, counter, min)
	}
}

// Failf records a violation outside a case.
func (c *C) Failf(sig string, f string, a ...interface{}) {
	c.violate(sig, fmt.Sprintf(f, a...), nil)
}

func (c *C) violate(sig, msg string, k *K) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if text, ok := c.known[sig]; ok {
		if !c.knownSeen[sig] {
			c.knownSeen[sig] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Check.ID, text)
		}
		c.counters["known_finding_hits"]++
		return
	}
	c.violations++
	c.sigSeen[sig]++
	if c.sigSeen[sig] > 2 || len(c.viols) >= 10 {
		return
	}
	dir := filepath.Join(c.OutDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.Check.ID, len(c.viols)))
	var b strings.Builder
	fmt.Fprintf(&b, "property: %s\nsignature: %s\nwhat: %s\nseed: %d tier: %s\n", c.Check.ID, sig, msg, c.Seed, c.Tier)
	if k != nil {
		fmt.Fprintf(&b, "case: %s index %d\nreplay: VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s --case %s:%d\n\ntrace:\n", k.Name, k.Idx, c.Seed, c.Tier, c.Check.ID, k.Name, k.Idx)
		for _, t := range k.Trace() {
			fmt.Fprintf(&b, "  %s\n", t)
		}
	}
	fmt.Fprintf(&b, "\nstack:\n%s\n", debug.Stack())
	_ = os.WriteFile(p, []byte(b.String()), 0o644)
	c.viols = append(c.viols, sig+": "+msg)
	if len(msg) > 600 {
		msg = msg[:600] + "..."
	}
	fmt.Printf("violation [%s] %s\n", sig, msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, p)
}

var onlyName string

// Cases runs n cases with the given name on w workers; each has its own PRNG determined by the
// seed, the property, the name and the index.
func (c *C) Cases(name string, n, workers int, f func(k *K)) {
	if onlyName != "" && onlyName != name {
		return
	}
	if workers <= 0 {
		workers = runtime.NumCPU()
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if c.OnlyIdx >= 0 && onlyName != "" && i != c.OnlyIdx {
					continue
				}
				c.runCase(name, i, f)
			}
		}()
	}
	wg.Wait()
}

func (c *C) runCase(name string, i int, f func(k *K)) {
	k := &K{
		C: c, Name: name, Idx: i,
		R: rand.New(rand.NewSource(int64(h64(fmt.Sprintf("%d/%s/%s/%d", c.Seed, c.Check.ID, name, i))))),
	}
	c.mu.Lock()
	c.running[k] = time.Now()
	c.mu.Unlock()
	defer func() {
		c.mu.Lock()
		delete(c.running, k)
		c.mu.Unlock()
	}()
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(InfraError); ok {
				c.Infra("%s", string(ie))
				return
			}
			st := string(debug.Stack())
			k.Tracef("panic: %v\n%s", r, st)
			k.Failf("panic", "panic while running case %s:%d: %v at %s", name, i, r, panicSite(st))
		}
	}()
	f(k)
}

// InfraError is panicked by harness code that cannot go on for reasons outside the code under test.
type InfraError string

func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	past := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			past = true
			continue
		}
		if past && strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// NoPanic runs f and reports if it panicked.
func NoPanic(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v at %s", r, panicSite(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func (c *C) loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var prop, sig string
		rest := []string{}
		for _, w := range strings.Fields(l[len("known: "):]) {
			switch {
			case strings.HasPrefix(w, "property=") && prop == "":
				prop = w[len("property="):]
			case strings.HasPrefix(w, "sig=") && sig == "":
				sig = w[len("sig="):]
			default:
				rest = append(rest, w)
			}
		}
		if prop == c.Check.ID && sig != "" {
			c.known[sig] = strings.Join(rest, " ")
		}
	}
}

func (c *C) coverage() map[string]interface{} {
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Check.Rule,
		"samples":             c.samples,
	}
	for k, v := range c.counters {
		cov["n_"+k] = v
	}
	for s, m := range c.sets {
		cov["distinct_"+s] = len(m)
		if len(m) <= 40 {
			cov["seen_"+s] = m
		}
	}
	return cov
}

// Main runs the check selected on the command line.
func Main(checks []Check) {
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "tier")
		seed     = flag.Int64("seed", 1, "seed")
		out      = flag.String("out", "", "evidence directory")
		scratch  = flag.String("scratch", "", "scratch directory")
		knownf   = flag.String("known", "", "known findings file")
		caseSel  = flag.String("case", "", "name:index of a single case")
		list     = flag.Bool("list", false, "list")
		logfile  = flag.String("log", "", "log file of the code under test")
		wallbase = flag.Float64("wallbase", 0, "seconds spent building")
	)
	flag.Parse()
	if *list {
		for _, ch := range checks {
			fmt.Println(ch.ID)
		}
		return
	}
	log.SetOutput(io.Discard)
	if *logfile != "" {
		if f, err := os.Create(*logfile); err == nil {
			log.SetOutput(&capped{f: f, max: 4 << 20})
		}
	}
	var ch *Check
	for i := range checks {
		if checks[i].ID == *prop {
			ch = &checks[i]
		}
	}
	if ch == nil {
		fmt.Println("no such property", *prop)
		os.Exit(ExitInfra)
	}
	c := &C{
		Check: *ch, Tier: *tier, Seed: *seed, OnlyIdx: -1, OutDir: *out, Scratch: *scratch,
		distinct: map[uint64]struct{}{}, maxSamples: 12, counters: map[string]int64{},
		sets: map[string]map[string]int64{}, known: map[string]string{}, knownSeen: map[string]bool{},
		start: time.Now(), sigSeen: map[string]int{}, running: map[*K]time.Time{}, wallbase: *wallbase,
	}
	if *caseSel != "" {
		onlyName = *caseSel
		if i := strings.LastIndex(*caseSel, ":"); i >= 0 {
			onlyName = (*caseSel)[:i]
			fmt.Sscanf((*caseSel)[i+1:], "%d", &c.OnlyIdx)
		}
	}
	c.loadKnown(*knownf)
	go c.watch()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if ie, ok := r.(InfraError); ok {
					c.Infra("%s", string(ie))
					return
				}
				c.Failf("panic", "panic outside a case: %v\n%s", r, debug.Stack())
			}
		}()
		ch.Run(c)
	}()
	c.finish()
	select {} // someone else is finishing
}

// watch reports cases that hang.
func (c *C) watch() {
	limit := c.Check.CaseLimit
	if limit == 0 {
		limit = 240 * time.Second
	}
	if c.Thorough() {
		limit *= 6
	}
	for {
		time.Sleep(2 * time.Second)
		var stuck *K
		c.mu.Lock()
		for k, t := range c.running {
			if time.Since(t) > limit {
				stuck = k
			}
		}
		c.mu.Unlock()
		if stuck != nil {
			b := make([]byte, 256<<10)
			b = b[:runtime.Stack(b, true)]
			stuck.Tracef("goroutines:\n%s", b)
			stuck.Failf("hang", "case %s:%d isn't finished after %v", stuck.Name, stuck.Idx, limit)
			c.finish()
		}
	}
}

// finish writes the evidence and ends the process.
func (c *C) finish() {
	c.finishing.Do(c.finishOnce)
}

func (c *C) finishOnce() {
	ch, out := c.Check, c.OutDir
	c.mu.Lock() // for good
	infra := func(f string, a ...interface{}) {
		if c.infra == "" {
			c.infra = fmt.Sprintf(f, a...)
		}
	}
	if onlyName == "" && c.evals < ch.MinEvals {
		infra("only %d evaluations, need %d", c.evals, ch.MinEvals)
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "no sample recorded")
	}
	ev := map[string]interface{}{
		"property": ch.ID, "tier": c.Tier, "seed": c.Seed, "level": ch.Level,
		"coverage": c.coverage(), "assumptions": ch.Assumptions,
		"wall_s": time.Since(c.start).Seconds() + c.wallbase, "violations": c.violations,
	}
	if ch.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if out != "" && onlyName == "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(out, ch.ID+".json"), append(b, '\n'), 0o644)
		}
		if err != nil {
			infra("cannot write evidence: %v", err)
		}
	}
	keys := []string{}
	for k := range c.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: %d evaluations, %d distinct, %.1fs", ch.ID, c.evals, len(c.distinct), time.Since(c.start).Seconds())
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, c.counters[k])
	}
	for s, m := range c.sets {
		fmt.Printf(" |%s|=%d", s, len(m))
	}
	fmt.Println()
	if c.violations > 0 {
		os.Exit(ExitViolation)
	}
	if c.infra != "" {
		fmt.Println("INCONCLUSIVE:", c.infra)
		os.Exit(ExitInfra)
	}
	os.Exit(ExitOK)
}

type capped struct {
	mu  sync.Mutex
	f   *os.File
	n   int
	max int
}

// Write keeps the file below the cap by starting over.
func (w *capped) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.n > w.max {
		_ = w.f.Truncate(0)
		_, _ = w.f.Seek(0, 0)
		w.n = 0
	}
	w.n += len(p)
	return w.f.Write(p)
}
