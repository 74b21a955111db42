// Package mc is a small stateless model checker: it runs a scenario (a deterministic Go function that
// drives the real implementation) once for every sequence of answers to the scenario's choice points.
//
// Two kinds of choice points exist. Pick is free nondeterminism: every alternative is explored. Dev is a
// departure from a default (alternative 0): an alternative other than 0 costs one deviation, and every
// execution whose total deviation cost stays within the bound is explored, in increasing order of cost.
// Exploration is depth-first by cost, over a work list shared by several workers, and is exhaustive within
// the bounds unless the time limit is hit, which is reported.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Scenario is one closed driver: a deterministic function of its choices.
type Scenario struct {
	Name string
	// Bound is the deviation bound of Dev choices (executions with more deviations are not explored).
	Bound int
	// ThoroughBound replaces Bound in the thorough tier when > Bound.
	ThoroughBound int
	// ThoroughOnly scenarios are skipped in the quick tier.
	ThoroughOnly bool
	// Weight is the share of the time limit (default 1), only used when the deadline would be hit.
	Weight int
	// Serial runs the scenario on one worker (it owns process-wide state).
	Serial bool
	// HangAfter replaces the time limit of one execution, when its executions are slow.
	HangAfter time.Duration
	Run       func(r *Run)
}

const maxStates = 16 << 20

type violation struct{ msg string }
type prune struct{}

// Known is implemented through Run.Known: findings that are listed in the known-findings file.

type point struct {
	n    int
	dev  bool
	took int
}

// Run is one execution.
type Run struct {
	Thorough bool
	prefix   []int32
	points   []point
	choices  []int32
	cost     int
	bound    int
	trace    bool
	log      []string
	trans    int64
	states   []uint64
	known    []string
	start    time.Time
	ex       *explorer
}

// Divergence is a harness error: the scenario did not behave as a function of its choices.
type Divergence struct{ msg string }

// Pick explores every value of [0,n).
func (r *Run) Pick(n int) int { return r.choose(n, false) }

// Dev explores [0,n) where 0 is the default and any other value costs one deviation.
func (r *Run) Dev(n int) int { return r.choose(n, true) }

// Bool explores both values.
func (r *Run) Bool() bool { return r.Pick(2) == 1 }

func (r *Run) choose(n int, dev bool) int {
	if n <= 0 {
		panic(prune{})
	}
	i := len(r.points)
	c := 0
	if i < len(r.prefix) {
		c = int(r.prefix[i])
		if c >= n {
			panic(Divergence{fmt.Sprintf("choice %d of execution prefix is %d but only %d alternatives exist", i, c, n)})
		}
	}
	r.points = append(r.points, point{n: n, dev: dev, took: c})
	r.choices = append(r.choices, int32(c))
	if dev && c != 0 {
		r.cost++
	}
	return c
}

// Prune abandons an infeasible execution (it is not counted).
func (r *Run) Prune() { panic(prune{}) }

// Failf reports a violation of the property.
func (r *Run) Failf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Known notes that a listed kind of defect showed; key identifies the specific input or call site.
// If the key is not listed in the known-findings file it is a violation.
func (r *Run) Known(key, format string, a ...interface{}) {
	if r.ex != nil && r.ex.cfg.Known[key] == "" {
		panic(violation{fmt.Sprintf(format, a...)})
	}
	r.known = append(r.known, key)
}

// Step counts a transition of the system under test.
func (r *Run) Step() { r.trans++ }

// Logf describes the execution; it is only evaluated when tracing.
func (r *Run) Logf(format string, a ...interface{}) {
	if r.trace {
		r.log = append(r.log, fmt.Sprintf(format, a...))
	}
}

// Tracing tells if Logf records anything.
func (r *Run) Tracing() bool { return r.trace }

var hashSeed = maphash.MakeSeed()

// State records the state reached (deduplicated by hash).
func (r *Run) State(b []byte) {
	r.states = append(r.states, maphash.Bytes(hashSeed, b))
}

// StateStr is State for a string.
func (r *Run) StateStr(s string) {
	r.states = append(r.states, maphash.String(hashSeed, s))
}

// Config configures an exploration.
type Config struct {
	Property  string
	Tier      string
	Seed      int
	Deadline  time.Duration
	Workers   int
	Known     map[string]string // key -> description (listed findings)
	ReplayDir string
	HangAfter time.Duration
	MemLimit  uint64
	Only      string // run only this scenario
}

// ScenarioStats is what one scenario explored.
type ScenarioStats struct {
	Name       string `json:"scenario"`
	Executions int64  `json:"executions"`
	Pruned     int64  `json:"pruned"`
	Trans      int64  `json:"transitions"`
	States     int    `json:"distinct_states"`
	Bound      int    `json:"deviation_bound"`
	Done       int    `json:"deviation_bound_completed"`
	MaxPoints  int    `json:"max_choice_points"`
	Complete   bool   `json:"exhaustive_within_bounds"`
	WallS      float64
}

// Result of an exploration.
type Result struct {
	Stats     []ScenarioStats
	States    int64
	Trans     int64
	Execs     int64
	Samples   []string
	Violation string
	Replay    string
	Known     map[string]int64
	Complete  bool
	HardError string
}

type item struct {
	base []int32 // choices of the parent execution (shared)
	i    int     // index of the changed choice, or -1 for the root
	alt  int32   // next alternative to explore
	last int32   // last alternative to explore
	cost int
}

func (it item) prefix() []int32 {
	if it.i < 0 {
		return nil
	}
	p := make([]int32, it.i+1)
	copy(p, it.base[:it.i])
	p[it.i] = it.alt
	return p
}

type explorer struct {
	cfg     *Config
	sc      *Scenario
	bound   int
	mu      sync.Mutex
	cond    *sync.Cond
	buckets [][]item
	active  int
	actCost []int // number of active executions per cost
	stop    bool
	done    int // completed bound
	execs   int64
	pruned  int64
	trans   int64
	maxPts  int
	shards  [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	viol     *failure
	hards    int
	hard     string
	known    map[string]int64
	samples  []string
	cur      []atomic.Value // per worker: *current
	deadline time.Time
}

type current struct {
	prefix []int32
	start  time.Time
}

type failure struct {
	msg     string
	choices []int32
	log     []string
}

// ReplayFile is the replayable artefact of a violation.
type ReplayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Tier     string   `json:"tier"`
	Bound    int      `json:"deviation_bound"`
	Choices  []int32  `json:"choices"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Reruns   string   `json:"reruns"`
}

// Explore runs every scenario of a property.
func Explore(cfg *Config, scs []Scenario) *Result {
	if cfg.Workers == 0 {
		cfg.Workers = runtime.NumCPU()
	}
	if cfg.HangAfter == 0 {
		cfg.HangAfter = 120 * time.Second
	}
	if cfg.MemLimit == 0 {
		cfg.MemLimit = 12 << 30
	}
	res := &Result{Known: map[string]int64{}, Complete: true}
	start := time.Now()
	total := 0
	for i := range scs {
		if scs[i].Weight == 0 {
			scs[i].Weight = 1
		}
		if !scs[i].ThoroughOnly || cfg.Tier == "thorough" {
			total += scs[i].Weight
		}
	}
	for i := range scs {
		sc := &scs[i]
		if sc.ThoroughOnly && cfg.Tier != "thorough" {
			continue
		}
		if cfg.Only != "" && cfg.Only != sc.Name {
			continue
		}
		left := cfg.Deadline - time.Since(start)
		if left < 0 {
			left = 0
		}
		budget := left * time.Duration(sc.Weight) / time.Duration(total)
		total -= sc.Weight
		if cfg.Only != "" {
			budget = left
		}
		st := exploreOne(cfg, sc, budget, res)
		if st != nil {
			res.Stats = append(res.Stats, *st)
			res.Execs += st.Executions
			res.Trans += st.Trans
			res.States += int64(st.States)
			if !st.Complete {
				res.Complete = false
			}
		}
		if res.Violation != "" {
			res.HardError = ""
			break
		}
	}
	return res
}

func exploreOne(cfg *Config, sc *Scenario, budget time.Duration, res *Result) *ScenarioStats {
	t0 := time.Now()
	e := &explorer{cfg: cfg, sc: sc, bound: sc.Bound, known: map[string]int64{}, done: -1}
	if cfg.Tier == "thorough" && sc.ThoroughBound > e.bound {
		e.bound = sc.ThoroughBound
	}
	e.cond = sync.NewCond(&e.mu)
	e.buckets = make([][]item, e.bound+1)
	e.actCost = make([]int, e.bound+1)
	e.buckets[0] = []item{{i: -1}}
	e.deadline = t0.Add(budget)
	for i := range e.shards {
		e.shards[i].m = map[uint64]struct{}{}
	}
	n := cfg.Workers
	if sc.Serial {
		n = 1
	}
	e.cur = make([]atomic.Value, n)
	stopWatch := make(chan struct{})
	finished := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) { defer wg.Done(); e.work(w) }(w)
	}
	go func() { wg.Wait(); close(finished) }()
	go e.watch(stopWatch)
	select {
	case <-finished:
	case f := <-e.hung():
		e.mu.Lock()
		if e.viol == nil {
			e.viol = f
		}
		e.stop = true
		e.mu.Unlock()
	}
	close(stopWatch)

	e.mu.Lock()
	defer e.mu.Unlock()
	st := &ScenarioStats{
		Name: sc.Name, Executions: e.execs, Pruned: e.pruned, Trans: e.trans, Bound: e.bound, Done: e.done,
		MaxPoints: e.maxPts, WallS: time.Since(t0).Seconds(),
	}
	for i := range e.shards {
		st.States += len(e.shards[i].m)
	}
	st.Complete = e.done == e.bound
	for k, v := range e.known {
		res.Known[k] += v
	}
	for _, s := range e.samples {
		if len(res.Samples) < 12 {
			res.Samples = append(res.Samples, "["+sc.Name+"] "+s)
		}
	}
	if e.hard != "" && e.viol == nil {
		res.HardError = "scenario " + sc.Name + ": " + e.hard
	}
	if e.viol != nil {
		res.Violation = "scenario " + sc.Name + ": " + e.viol.msg
		res.Replay = e.writeReplay(e.viol)
	}
	return st
}

var hangCh = make(chan *failure, 1)

func (e *explorer) hung() chan *failure { return hangCh }

// watch detects executions that never end or that exhaust memory.
func (e *explorer) watch(stop chan struct{}) {
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		metrics.Read(sample)
		mem := sample[0].Value.Uint64()
		var oldest *current
		for i := range e.cur {
			c, _ := e.cur[i].Load().(*current)
			if c == nil || c.start.IsZero() {
				continue
			}
			if oldest == nil || c.start.Before(oldest.start) {
				oldest = c
			}
		}
		if oldest == nil {
			continue
		}
		age := time.Since(oldest.start)
		msg := ""
		limit := e.cfg.HangAfter
		if e.sc.HangAfter > limit {
			limit = e.sc.HangAfter
		}
		if age > limit {
			msg = fmt.Sprintf("the call never ended (still running after %.0f s; the same executions normally take milliseconds)", age.Seconds())
		} else if mem > e.cfg.MemLimit && age > 2*time.Second {
			msg = fmt.Sprintf("memory use exploded (%d MB of live heap) in an execution running for %.0f s", mem>>20, age.Seconds())
		}
		if msg != "" {
			select {
			case hangCh <- &failure{msg: msg, choices: oldest.prefix}:
			default:
			}
			return
		}
	}
}

func (e *explorer) work(w int) {
	var r Run
	for {
		e.mu.Lock()
		var it item
		ok := false
		for !e.stop {
			found := -1
			for c := range e.buckets {
				if len(e.buckets[c]) > 0 {
					found = c
					break
				}
			}
			if found >= 0 {
				b := e.buckets[found]
				it = b[len(b)-1]
				if it.alt < it.last {
					b[len(b)-1].alt++
				} else {
					b[len(b)-1] = item{}
					e.buckets[found] = b[:len(b)-1]
				}
				ok = true
				break
			}
			if e.active == 0 {
				e.done = e.bound
				e.stop = true
				break
			}
			e.cond.Wait()
		}
		if !ok {
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		// Completed bound: every bucket below it.cost is empty and no execution of lower cost is active.
		low := it.cost
		for c := 0; c < it.cost; c++ {
			if e.actCost[c] > 0 {
				low = c
				break
			}
		}
		if low-1 > e.done {
			e.done = low - 1
		}
		if time.Now().After(e.deadline) && e.execs > 0 {
			e.stop = true
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		e.active++
		e.actCost[it.cost]++
		e.mu.Unlock()

		prefix := it.prefix()
		e.cur[w].Store(&current{prefix: prefix, start: time.Now()})
		f, pruned, hard := e.exec(&r, prefix, false)
		e.cur[w].Store(&current{})
		if f != nil {
			// The harness is deterministic; confirm it, and get a trace.
			same := 0
			var last *failure
			for i := 0; i < 5; i++ {
				var r2 Run
				f2, _, _ := e.exec(&r2, f.choices, true)
				if f2 != nil {
					same++
					last = f2
				}
			}
			for i := 0; last == nil && i < 300; i++ {
				// the implementation itself may be nondeterministic (map iteration order)
				var r2 Run
				if f2, _, _ := e.exec(&r2, f.choices, true); f2 != nil {
					last = f2
				}
			}
			if last != nil {
				f.log = last.log
			}
			f.msg += fmt.Sprintf(" (failed again in %d of 5 re-runs)", same)
		}

		e.mu.Lock()
		e.active--
		e.actCost[it.cost]--
		if hard != "" {
			// A harness error, or an implementation that is not a function of its inputs: go on for a while, a
			// violation takes precedence.
			e.hard = hard
			e.hards++
			if e.hards > 100 {
				e.stop = true
			}
		}
		if f != nil {
			if e.viol == nil || len(f.choices) < len(e.viol.choices) {
				e.viol = f
			}
			e.stop = true
		}
		if !e.stop {
			if pruned {
				e.pruned++
			} else {
				e.execs++
			}
			e.trans += r.trans
			if len(r.points) > e.maxPts {
				e.maxPts = len(r.points)
			}
			for _, k := range r.known {
				e.known[k]++
			}
			// push alternatives
			var base []int32
			pushed := 0
			cost := 0
			for i, p := range r.points {
				if i >= len(prefix) && hard == "" {
					extra := 0
					if p.dev {
						extra = 1
					}
					if cost+extra <= e.bound {
						if p.n > 1 {
							if base == nil {
								base = append([]int32(nil), r.choices...)
							}
							e.buckets[cost+extra] = append(e.buckets[cost+extra], item{base: base, i: i, alt: 1, last: int32(p.n - 1), cost: cost + extra})
							pushed++
						}
					}
				}
				if p.dev && p.took != 0 {
					cost++
				}
			}
			if pushed > 0 || e.active == 0 {
				e.cond.Broadcast()
			}
		} else {
			e.cond.Broadcast()
		}
		wantSample := !pruned && f == nil && hard == "" && len(e.samples) < 3 && (e.execs == 1 || e.execs == 50 || e.execs == 1000)
		e.mu.Unlock()

		for _, h := range r.states {
			s := &e.shards[h&63]
			s.mu.Lock()
			if len(s.m) < maxStates/64 { // beyond that, the count is a lower bound
				s.m[h] = struct{}{}
			}
			s.mu.Unlock()
		}
		if wantSample {
			var r2 Run
			ch := append([]int32(nil), r.choices...)
			e.exec(&r2, ch, true)
			s := strings.Join(r2.log, "; ")
			if len(s) > 700 {
				s = s[:700] + "..."
			}
			e.mu.Lock()
			e.samples = append(e.samples, fmt.Sprintf("choices=%v: %s", ch, s))
			e.mu.Unlock()
		}
	}
}

// exec runs one execution.
func (e *explorer) exec(r *Run, prefix []int32, trace bool) (f *failure, pruned bool, hard string) {
	*r = Run{
		Thorough: e.cfg.Tier == "thorough",
		prefix:   prefix,
		points:   r.points[:0],
		choices:  r.choices[:0],
		states:   r.states[:0],
		bound:    e.bound,
		trace:    trace,
		ex:       e,
	}
	defer func() {
		if p := recover(); p != nil {
			switch p := p.(type) {
			case violation:
				f = &failure{msg: p.msg}
			case prune:
				pruned = true
			case Divergence:
				hard = p.msg
			default:
				if s, ok := p.(string); ok && strings.HasPrefix(s, "harness") {
					hard = s + " at " + panicSite()
					break
				}
				f = &failure{msg: fmt.Sprintf("panic: %v at %s", p, panicSite())}
			}
		}
		if f != nil {
			f.choices = append([]int32(nil), r.choices...)
			f.log = r.log
		}
		if f == nil && hard == "" && len(r.points) < len(prefix) && !pruned {
			hard = fmt.Sprintf("execution made %d choices, but its prefix has %d", len(r.points), len(prefix))
		}
	}()
	e.sc.Run(r)
	return
}

func panicSite() string {
	st := strings.Split(string(debug.Stack()), "\n")
	var sites []string
	seenPanic := false
	for i, l := range st {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") || i+1 >= len(st) || l == "" {
			continue
		}
		fn := l
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		loc := strings.TrimSpace(st[i+1])
		if j := strings.Index(loc, " +0x"); j > 0 {
			loc = loc[:j]
		}
		sites = append(sites, fn+" "+filepath.Base(loc))
		if len(sites) >= 6 {
			break
		}
	}
	return strings.Join(sites, " < ")
}

func (e *explorer) writeReplay(f *failure) string {
	dir := e.cfg.ReplayDir
	if dir == "" {
		return ""
	}
	os.MkdirAll(dir, 0o755)
	log := f.log
	if len(log) > 400 {
		log = log[:400]
	}
	for i := range log {
		if len(log[i]) > 2000 {
			log[i] = log[i][:2000] + "..."
		}
	}
	rf := ReplayFile{Property: e.cfg.Property, Scenario: e.sc.Name, Tier: e.cfg.Tier, Bound: e.bound, Choices: f.choices, Message: f.msg, Trace: log}
	b, _ := json.MarshalIndent(rf, "", " ")
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", e.cfg.Property, sanitize(e.sc.Name)))
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

// Replay runs one recorded execution and returns its failure message ("" if it passes) and its trace.
func Replay(cfg *Config, scs []Scenario, rf *ReplayFile) (string, []string, error) {
	for i := range scs {
		if scs[i].Name == rf.Scenario {
			e := &explorer{cfg: cfg, sc: &scs[i], bound: rf.Bound, known: map[string]int64{}}
			var r Run
			f, _, hard := e.exec(&r, rf.Choices, true)
			if hard != "" {
				return "", nil, fmt.Errorf("%s", hard)
			}
			if f != nil {
				return f.msg, r.log, nil
			}
			return "", r.log, nil
		}
	}
	return "", nil, fmt.Errorf("no scenario %q", rf.Scenario)
}

// SortedKeys is a helper.
func SortedKeys(m map[string]int64) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
