// Package mon is the common part of all monitors: seeds, tiers, counters,
// verdicts, evidence and replay files.
//
// A check has exactly three endings:
//
//	held          exit 0, evidence written
//	violated      exit 1, one "VIOLATION property=<id> replay=<path>" line
//	inconclusive  exit 2 (the workload could not run or observed too little)
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the state of one run of one property's check.
type Check struct {
	ID       string
	Seed     uint64
	Thorough bool

	mu       sync.Mutex
	start    time.Time
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	sets     map[string]map[uint64]struct{}
	samples  []any
	rule     string
	assume   []string
	known    map[string]string
	knownHit map[string]bool
	wdEpoch  atomic.Int64
	wdDesc   atomic.Pointer[string]
	wdOff    atomic.Bool
	done     atomic.Bool
	elapsed  atomic.Int64
	replay   string
}

// realNow is wall-clock time even when called from a synctest bubble: it is
// only used for the reported duration and the watchdog, which live outside.
func realNow() time.Time { return time.Now() }

// Start begins the check of property id. Call it outside any synctest bubble.
func Start(id, rule string) *Check {
	c := &Check{
		ID:       id,
		Seed:     1,
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		start:    realNow(),
		distinct: map[uint64]struct{}{},
		counters: map[string]int64{},
		sets:     map[string]map[uint64]struct{}{},
		rule:     rule,
		known:    map[string]string{},
		knownHit: map[string]bool{},
		replay:   os.Getenv("VF_CASE"),
	}
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.Seed = s
	}
	c.loadKnown()
	c.watchdog()
	return c
}

func (c *Check) loadKnown() {
	b, err := os.ReadFile(os.Getenv("VF_KNOWN"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		// known: property=<id> key=<key> <what fails>
		if !strings.HasPrefix(line, "known: property="+c.ID+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+c.ID+" key=")
		key, what, _ := strings.Cut(rest, " ")
		c.known[key] = what
	}
}

// Rand returns a generator for a named part of the check, determined by
// VERIF_SEED and the name alone.
func (c *Check) Rand(parts ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, c.ID, "|")
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	return rand.New(rand.NewPCG(c.Seed, h.Sum64()))
}

// N picks the number of cases of the tier.
func (c *Check) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Skip says whether a replay run was asked for another case than this one.
func (c *Check) Skip(name string) bool {
	if only := os.Getenv("VF_ONLY"); only != "" && !strings.HasPrefix(name, only) {
		return true
	}
	return c.replay != "" && c.replay != name
}

// Case counts one evaluated case. sig describes what makes it distinct; an
// empty sig is trivial and not counted as distinct.
func (c *Check) Case(sig string) {
	c.Tick()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if sig != "" {
		c.distinct[hash(sig)] = struct{}{}
	}
}

// Count adds to a named counter of observed events.
func (c *Check) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counters[name] += int64(n)
}

// Seen adds a value to a named set; the evidence reports the set's size.
func (c *Check) Seen(name, val string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.sets[name]
	if s == nil {
		s = map[uint64]struct{}{}
		c.sets[name] = s
	}
	s[hash(val)] = struct{}{}
}

// Sample keeps a few written-out cases for the evidence file.
func (c *Check) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 4 {
		if b, err := json.Marshal(v); err == nil && len(b) > 4000 {
			v = strings.ToValidUTF8(string(b[:4000]), "") + "… (" + fmt.Sprint(len(b)) + " bytes)"
		}
		c.samples = append(c.samples, v)
	}
}

// WantSample says whether another sample would be kept.
func (c *Check) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.samples) < 4
}

// Assume records an assumption for the evidence file.
func (c *Check) Assume(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.assume = append(c.assume, s)
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Violate ends the run with a violation unless key names a known finding. It
// may be called from any goroutine.
func (c *Check) Violate(caseName, format string, args ...any) {
	c.ViolateKey("", caseName, format, args...)
}

// ViolateKey is Violate for failures that can be identified by a key in the
// known findings file: a listed failure prints KNOWN-FINDING and returns.
func (c *Check) ViolateKey(key, caseName, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if what, ok := c.known[key]; ok && key != "" {
		c.mu.Lock()
		first := !c.knownHit[key]
		c.knownHit[key] = true
		c.mu.Unlock()
		if first {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
		}
		return
	}
	if !c.done.CompareAndSwap(false, true) {
		select {} // another goroutine is reporting
	}
	path := filepath.Join(replayDir(), c.ID+".json")
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(map[string]any{
		"property": c.ID,
		"seed":     c.Seed,
		"tier":     c.tier(),
		"case":     caseName,
		"witness":  msg,
		"replay":   fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s VF_CASE=%q python3 run.py %s", c.Seed, c.tier(), caseName, c.ID),
	}, "", " ")
	os.WriteFile(path, b, 0o644)
	c.writeEvidence(1)
	show := msg
	if len(show) > 6000 {
		show = show[:6000] + "..."
	}
	fmt.Printf("case %s: %s\nVIOLATION property=%s replay=%s\n", caseName, show, c.ID, path)
	os.Exit(1)
}

// Inconclusive ends the run without a verdict.
func (c *Check) Inconclusive(format string, args ...any) {
	if !c.done.CompareAndSwap(false, true) {
		select {}
	}
	fmt.Printf("INCONCLUSIVE property=%s %s\n", c.ID, fmt.Sprintf(format, args...))
	os.Exit(2)
}

func replayDir() string {
	if d := os.Getenv("VF_EVIDENCE"); d != "" {
		return filepath.Join(d, "replay")
	}
	return filepath.Join(os.TempDir(), "replay")
}

func (c *Check) tier() string {
	if c.Thorough {
		return "thorough"
	}
	return "quick"
}

// Finish ends the check: it is inconclusive unless every named counter
// reached its minimum, and otherwise held.
func (c *Check) Finish(min map[string]int64) {
	c.wdOff.Store(true)
	c.elapsed.Store(int64(realNow().Sub(c.start)))
	if c.replay == "" {
		for name, n := range min {
			got := c.counters[name]
			if s, ok := c.sets[name]; ok {
				got = int64(len(s))
			}
			if got < n {
				c.Inconclusive("observed too little: %s=%d, want at least %d", name, got, n)
			}
		}
		if c.evals == 0 {
			c.Inconclusive("no case was evaluated")
		}
	}
	if !c.done.CompareAndSwap(false, true) {
		select {}
	}
	c.writeEvidence(0)
	fmt.Printf("HELD property=%s evaluations=%d distinct=%d %v\n", c.ID, c.evals, len(c.distinct), c.allCounters())
}

func (c *Check) allCounters() map[string]int64 {
	out := map[string]int64{}
	for k, v := range c.counters {
		out[k] = v
	}
	for k, v := range c.sets {
		out["distinct "+k] = int64(len(v))
	}
	return out
}

func (c *Check) writeEvidence(violations int) {
	dir := os.Getenv("VF_EVIDENCE")
	if dir == "" {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
		"observed":            c.allCounters(),
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	if len(c.knownHit) > 0 {
		var ks []string
		for k := range c.knownHit {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_seen"] = ks
	}
	b, err := json.MarshalIndent(map[string]any{
		"property":    c.ID,
		"tier":        c.tier(),
		"seed":        c.Seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": c.assume,
		"wall_s":      c.wall(),
		"violations":  violations,
	}, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644)
}

// wall is the elapsed wall-clock time in seconds. Inside a synctest bubble
// time.Now is virtual, so the watchdog, which lives outside, keeps it.
func (c *Check) wall() float64 { return time.Duration(c.elapsed.Load()).Seconds() + 0.001 }

// Tick tells the watchdog that the check makes progress.
func (c *Check) Tick() { c.wdEpoch.Add(1) }

// Doing names what is going on, for the watchdog's report.
func (c *Check) Doing(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.wdDesc.Store(&s)
	c.Tick()
}

// WatchdogLimit is how long the check may go without Tick. The operations
// between two ticks take milliseconds.
var WatchdogLimit = 90 * time.Second

// watchdog turns a run that no longer progresses into a verdict: when the
// same goroutines are stuck in, or spinning through, code of the system under
// test, bounded progress is violated. A stuck harness is inconclusive.
func (c *Check) watchdog() {
	go func() {
		last := c.wdEpoch.Load()
		since := realNow()
		for {
			time.Sleep(250 * time.Millisecond)
			c.elapsed.Store(int64(realNow().Sub(c.start)))
			if c.wdOff.Load() || c.done.Load() {
				return
			}
			if e := c.wdEpoch.Load(); e != last {
				last, since = e, realNow()
				continue
			}
			if realNow().Sub(since) < WatchdogLimit {
				continue
			}
			desc := "?"
			if p := c.wdDesc.Load(); p != nil {
				desc = *p
			}
			a := SUTGoroutines()
			time.Sleep(3 * time.Second)
			if c.wdEpoch.Load() != last {
				continue
			}
			b := SUTGoroutines()
			if f := os.Getenv("VF_STACKS"); f != "" {
				buf := make([]byte, 8<<20)
				os.WriteFile(f, buf[:runtime.Stack(buf, true)], 0o644)
			}
			if len(a) > 0 && len(b) > 0 {
				c.Violate(desc, "no progress for %s while %s; goroutines in the system under test:\n%s",
					WatchdogLimit, desc, strings.Join(b, "\n\n"))
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			c.Inconclusive("no progress for %s while %s, outside the system under test\n%s", WatchdogLimit, desc, buf)
		}
	}()
}

// SUTGoroutines returns the stacks of goroutines that are in, or were started
// by, the code under test.
func SUTGoroutines() []string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/c-kruse/vanflow") {
			out = append(out, g)
		}
	}
	return out
}

// Try runs fn and returns the panic value, if any, with the stack.
func Try(fn func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			panicked = fmt.Sprintf("%v\n%s", r, buf)
		}
	}()
	fn()
	return ""
}
