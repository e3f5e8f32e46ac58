// Package vlib is the small exploration kernel shared by every check: exhaustive enumeration with
// counters, panic/hang capture, known findings, replay files and the evidence file.
package vlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const shards = 64

type shard struct {
	mu sync.Mutex
	mp map[uint64]struct{}
}

// R is one run of one check.
type R struct {
	Prop     string
	Tier     string
	Seed     int
	Level    string
	Rule     string
	only     string
	root     string
	start    time.Time
	deadline time.Time

	states      [shards]shard
	outcomes    [shards]shard
	transitions int64
	traces      int64
	nontrivial  int64

	mu         sync.Mutex
	samples    []string
	sections   map[string]int64
	known      map[string]string
	knownHit   map[string]string
	violations []violation
	seenViol   map[string]bool
	assume     []string
	exhaustive bool
	capNotes   []string
	running    sync.Map
	caseSeq    int64
}

type violation struct {
	Key    string
	Detail string
}

type runningCase struct {
	id    string
	since time.Time
}

// New parses the command line and creates the run.
func New(prop string) *R {
	only := flag.String("only", "", "re-execute only the case with this id")
	flag.Parse()
	r := &R{
		Prop: prop, Tier: os.Getenv("VERIF_TIER"), Level: "model_checking",
		only: *only, start: time.Now(), root: os.Getenv("VERIF_ROOT"),
		sections: map[string]int64{}, known: map[string]string{}, knownHit: map[string]string{},
		seenViol: map[string]bool{}, exhaustive: true,
	}
	if r.root == "" {
		r.root = "/verif"
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 420 * time.Second
	if r.Tier == "thorough" {
		budget = 3000 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && v > 0 {
		budget = time.Duration(v) * time.Second
	}
	r.deadline = r.start.Add(budget)
	for i := range r.states {
		r.states[i].mp = map[uint64]struct{}{}
		r.outcomes[i].mp = map[uint64]struct{}{}
	}
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(400) // the code under test allocates a lot, and keeps little
		debug.SetMemoryLimit(6 << 30)
	}
	r.loadKnown()
	go r.watchdog()
	return r
}

// Thorough tells whether the deep tier runs.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough tier.
func (r *R) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func (r *R) loadKnown() {
	data, err := os.ReadFile(filepath.Join(r.root, "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "fixed:") || strings.HasPrefix(line, "#") {
			continue
		}
		var k struct{ Property, Key, What string }
		if json.Unmarshal([]byte(line), &k) == nil && k.Property == r.Prop {
			r.known[k.Key] = k.What
		}
	}
}

// watchdog turns a case that never ends, or that eats all the memory, into a violation.
func (r *R) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 14<<30 {
			runtime.GC()
			runtime.ReadMemStats(&ms)
		}
		now := time.Now()
		r.running.Range(func(_, v interface{}) bool {
			c := v.(*runningCase)
			age := now.Sub(c.since)
			if age > 120*time.Second {
				r.fatal(c.id, fmt.Sprintf("the call did not return after %.0fs", age.Seconds()))
			}
			if ms.HeapAlloc > 14<<30 && age > 8*time.Second {
				r.fatal(c.id, fmt.Sprintf("the call allocates without bound (%d MB live)", ms.HeapAlloc>>20))
			}
			return true
		})
	}
}

func (r *R) fatal(id, what string) {
	r.Violate(id, what)
	r.Finish()
	os.Exit(1)
}

// Fail is raised by a case body to report that the property does not hold there.
type Fail struct{ Key, Msg string }

// Failf aborts the current case with a violation of the property.
func Failf(format string, args ...interface{}) { panic(Fail{Msg: fmt.Sprintf(format, args...)}) }

// FailKey aborts the current case with a violation that has its own identity (for known findings).
func FailKey(key, format string, args ...interface{}) {
	panic(Fail{Key: key, Msg: fmt.Sprintf(format, args...)})
}

// Case executes one enumerated case. Any panic of the code under test is a violation.
func (r *R) Case(id string, body func()) (ok bool) {
	if r.only != "" && r.only != id {
		return true
	}
	n := atomic.AddInt64(&r.caseSeq, 1)
	if n == 3 || n == 30 || n == 300 || n == 3000 || n == 30000 || n == 300000 || n == 3000000 {
		r.Sample("%s", id)
	}
	rc := &runningCase{id: id, since: time.Now()}
	r.running.Store(n, rc)
	defer r.running.Delete(n)
	defer func() {
		if p := recover(); p != nil {
			ok = false
			if f, is := p.(Fail); is {
				key := f.Key
				if key == "" {
					key = id
				}
				r.Violate(key, fmt.Sprintf("case %s: %s", id, f.Msg))
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			r.Violate(id, fmt.Sprintf("case %s: panic: %v\n%s", id, p, st))
		}
	}()
	body()
	atomic.AddInt64(&r.traces, 1)
	return true
}

// Violate records a violation (or a hit of a known finding).
func (r *R) Violate(key, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if what, ok := r.known[key]; ok {
		r.knownHit[key] = what
		return
	}
	if r.seenViol[key] {
		return
	}
	r.seenViol[key] = true
	if len(r.violations) < 200 {
		r.violations = append(r.violations, violation{key, detail})
	}
}

// IsKnown tells whether key is a listed finding.
func (r *R) IsKnown(key string) bool { _, ok := r.known[key]; return ok }

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func addTo(set *[shards]shard, key string) bool {
	v := h64(key)
	s := &set[v%shards]
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.mp[v]; ok {
		return false
	}
	s.mp[v] = struct{}{}
	return true
}

func count(set *[shards]shard) int64 {
	out := int64(0)
	for i := range set {
		set[i].mu.Lock()
		out += int64(len(set[i].mp))
		set[i].mu.Unlock()
	}
	return out
}

// State records a visited state; true when it is new.
func (r *R) State(key string) bool { return addTo(&r.states, key) }

// Outcome records an observed outcome (to show that the exploration is not vacuous).
func (r *R) Outcome(key string) { addTo(&r.outcomes, key) }

// Step counts calls executed on the implementation.
func (r *R) Step(n int) { atomic.AddInt64(&r.transitions, int64(n)) }

// Nontrivial counts the cases which the rule calls non-trivial.
func (r *R) Nontrivial() { atomic.AddInt64(&r.nontrivial, 1) }

// Section counts cases by part of the check.
func (r *R) Section(name string, n int64) {
	r.mu.Lock()
	r.sections[name] += n
	r.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (r *R) Sample(format string, args ...interface{}) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Assume records an assumption.
func (r *R) Assume(s string) { r.assume = append(r.assume, s) }

// Expired tells that the internal budget is over; the run is then reported as not exhaustive.
func (r *R) Expired(what string) bool {
	if time.Now().Before(r.deadline) {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.exhaustive = false
	for _, c := range r.capNotes {
		if c == what {
			return true
		}
	}
	r.capNotes = append(r.capNotes, what)
	return true
}

// Parallel runs f(0..n-1) on all cores.
func (r *R) Parallel(n int, f func(i int)) {
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	next := int64(-1)
	wg := sync.WaitGroup{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Finish writes the evidence and exits.
func (r *R) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	keys := []string{}
	for k := range r.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, r.knownHit[k], k)
	}
	if r.only != "" {
		for _, v := range r.violations {
			fmt.Println(v.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, r.only)
		}
		if len(r.violations) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	states, outcomes := count(&r.states), count(&r.outcomes)
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "(no sample)")
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   atomic.LoadInt64(&r.transitions),
		"traces_validated_against_impl": atomic.LoadInt64(&r.traces),
		"distinct_outcomes":             outcomes,
		"samples":                       r.samples,
		"rule":                          r.Rule,
		"exhaustive":                    r.exhaustive,
		"cases_by_section":              r.sections,
		"caps":                          r.capNotes,
		"known_findings_hit":            keys,
	}
	if n := atomic.LoadInt64(&r.nontrivial); n > 0 {
		cov["distinct_nontrivial"] = n
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": r.assume, "wall_s": time.Since(r.start).Seconds(),
		"violations": len(r.violations),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.root, "evidence", r.Prop+".json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("%s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs violations=%d\n",
		r.Prop, states, r.transitions, r.traces, outcomes, r.exhaustive, time.Since(r.start).Seconds(), len(r.violations))
	if len(r.violations) == 0 {
		os.Exit(0)
	}
	dir := filepath.Join(r.root, "replays")
	os.MkdirAll(dir, 0o755)
	shown := 5
	if n, err := strconv.Atoi(os.Getenv("VERIF_SHOW")); err == nil && n > 0 {
		shown = n
	}
	for i, v := range r.violations {
		if i >= shown {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.Prop, h64(v.Key)))
		data, _ := json.MarshalIndent(map[string]string{
			"property": r.Prop, "tier": r.Tier, "key": v.Key, "detail": v.Detail,
			"rerun": fmt.Sprintf("VERIF_TIER=%s bash /verif/check.sh %s -only <case id in detail>", r.Tier, r.Prop),
		}, "", " ")
		os.WriteFile(path, data, 0o644)
		d := v.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		fmt.Println(d)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	}
	os.Exit(1)
}

// Try runs f and returns the panic it ended with, if any.
func Try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}
