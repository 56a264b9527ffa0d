package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check collects what one run of one property's monitor observed, and its verdict.
type Check struct {
	ID       string
	Tier     string
	Seed     int64
	Level    string
	start    time.Time
	mu       sync.Mutex
	counters map[string]int64
	distinct map[uint64]struct{}
	samples  []interface{}
	viols    []violation
	known    map[string]bool
	rule     string
	assume   []string
	need     []string // counters that must be > 0 for the run to count as an observation
	inconcl  []string
	extra    map[string]interface{}
}

type violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func scratchDir() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	d, err := os.MkdirTemp("", "verif-scratch")
	must(err)
	os.Setenv("VERIF_SCRATCH", d)
	return d
}

var dirSeq int64

// newDir makes a fresh directory below the run's scratch directory.
func newDir(name string) string {
	d := filepath.Join(scratchDir(), fmt.Sprintf("%s-%d", name, atomic.AddInt64(&dirSeq, 1)))
	must(os.MkdirAll(d, 0o755))
	return d
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func newCheck(id string) *Check {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	c := &Check{ID: id, Tier: tier, Seed: seed, Level: "exploration", start: time.Now(),
		counters: map[string]int64{}, distinct: map[uint64]struct{}{}, known: map[string]bool{},
		extra: map[string]interface{}{}}
	c.loadKnown()
	return c
}

func (c *Check) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.md"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <what fails>
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+c.ID && strings.HasPrefix(f[2], "key=") {
			c.known[strings.TrimPrefix(f[2], "key=")] = true
		}
	}
}

// thorough picks the size for the tier.
func (c *Check) size(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Rng is a random source which depends on the seed and the name only.
func (c *Check) Rng(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", c.ID, name, c.Seed)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (c *Check) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

func (c *Check) Get(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

// Eval counts one evaluated case; key identifies the case's non-trivial content ("" if trivial).
func (c *Check) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counters["evaluations"]++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = struct{}{}
	}
}

func (c *Check) Sample(v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, v)
	}
}

func (c *Check) Violation(key, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viols) < 200 {
		v := violation{key, fmt.Sprintf(format, a...)}
		c.viols = append(c.viols, v)
		if !c.known[key] {
			keepViolation(v)
		}
	}
}

// keepViolation writes a violation down at once, for a run which does not get to its end.
func keepViolation(v violation) {
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		return
	}
	f, err := os.OpenFile(filepath.Join(dir, "violations"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	b, _ := json.Marshal(v)
	f.Write(append(b, '\n'))
	f.Close()
}

// keptViolations reads what keepViolation wrote.
func keptViolations(dir string) (out []violation) {
	b, _ := os.ReadFile(filepath.Join(dir, "violations"))
	for _, l := range strings.Split(string(b), "\n") {
		var v violation
		if json.Unmarshal([]byte(l), &v) == nil && v.Key != "" {
			out = append(out, v)
		}
	}
	return
}

func (c *Check) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) > 0
}

// Inconclusive notes that something could not be judged; it is neither a pass nor a violation.
func (c *Check) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.inconcl = append(c.inconcl, fmt.Sprintf(format, a...))
}

// Need names counters without which the run did not observe the property.
func (c *Check) Need(names ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.need = append(c.need, names...)
}

func (c *Check) Rule(r string, assumptions ...string) { c.rule, c.assume = r, assumptions }

// Finish writes the evidence, prints the verdict and exits.
func (c *Check) Finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	evDir := filepath.Join(verifDir(), "evidence")
	must(os.MkdirAll(evDir, 0o755))
	for _, n := range c.need {
		if c.counters[n] == 0 {
			c.inconcl = append(c.inconcl, "nothing observed of: "+n)
		}
	}
	bad := 0
	seen := map[string]bool{}
	var replay string
	for i, v := range c.viols {
		if c.known[v.Key] {
			if !seen[v.Key] {
				seen[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", c.ID, v.Key, firstLine(v.Detail))
			}
			continue
		}
		bad++
		if replay == "" {
			replay = filepath.Join(evDir, fmt.Sprintf("%s-violation.txt", c.ID))
			f, err := os.Create(replay)
			must(err)
			fmt.Fprintf(f, "property %s tier %s seed %d\nreplay: VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s\n\n",
				c.ID, c.Tier, c.Seed, c.Seed, c.Tier, c.ID)
			for _, w := range c.viols[i:] {
				fmt.Fprintf(f, "[%s] %s\n\n", w.Key, w.Detail)
			}
			f.Close()
		}
	}
	cov := map[string]interface{}{
		"evaluations":         c.counters["evaluations"],
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
	}
	obs := map[string]int64{}
	for k, v := range c.counters {
		if k != "evaluations" {
			obs[k] = v
		}
	}
	cov["observed"] = obs
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.inconcl) > 0 {
		cov["inconclusive"] = c.inconcl
	}
	if c.samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(c.start).Seconds(), "violations": bad,
	}
	if c.assume == nil {
		delete(ev, "assumptions")
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644))

	keys := make([]string, 0, len(obs))
	for k := range obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", c.ID, c.Tier, c.Seed,
		c.counters["evaluations"], len(c.distinct), time.Since(c.start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, obs[k])
	}
	if bad > 0 {
		for i, v := range c.viols {
			if i < 5 && !c.known[v.Key] {
				fmt.Printf("  violated [%s] %s\n", v.Key, firstLine(v.Detail))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		os.Exit(1)
	}
	for _, i := range c.inconcl {
		fmt.Printf("  inconclusive: %s\n", i)
	}
	for _, n := range c.need {
		if c.counters[n] == 0 {
			os.Exit(2)
		}
	}
	if c.counters["evaluations"] == 0 {
		os.Exit(2)
	}
	os.Exit(0)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	q := strconv.QuoteToASCII(s)
	return q[1 : len(q)-1]
}

// parallel runs f(i) for i in [0,n) with at most w at once.
func parallel(n, w int, f func(i int)) {
	sem := make(chan struct{}, w)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

var clock int64

// tick is a logical clock: a later call gives a larger number.
func tick() int64 { return atomic.AddInt64(&clock, 1) }
