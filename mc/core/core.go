// Package core is the shared part of the checks: case accounting, violation
// reporting, the explicit-state search and the canonical form of live objects.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one broken case.
type Violation struct {
	Key    string `json:"key"`    // stable identification of the failing input or history
	Case   string `json:"case"`   // the case, written out
	Detail string `json:"detail"` // what was observed and what was expected
	Replay any    `json:"replay,omitempty"`
}

// Result is what a check run reports.
type Result struct {
	Property   string         `json:"property"`
	Coverage   map[string]any `json:"coverage"`
	Violations []Violation    `json:"violations"`
	Known      []Violation    `json:"known"`
	Internal   string         `json:"internal,omitempty"` // an error of the machinery
}

// Check is one registered check.
type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(c *Ctx)
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(id, level, rule string, run func(c *Ctx)) {
	registry[id] = &Check{id, level, rule, run}
}

// Ctx is a run of a check.
type Ctx struct {
	ID       string
	Thorough bool
	Workers  int

	States, Transitions, Evals, Nontrivial, Traces int64
	exhaustive                                     bool
	bounds                                         []string
	extra                                          map[string]any

	mu      sync.Mutex
	samples []string
	viols   []Violation
	known   []Violation
	knownBy map[string]bool
	stopped atomic.Bool
	late    atomic.Bool
	workers []*W
}

// W is a worker of a run. A worker runs one case at a time.
type W struct {
	C      *Ctx
	id     int
	beat   atomic.Int64
	busy   atomic.Bool
	desc   atomic.Pointer[func() string]
	replay any
}

type abort struct{}

// Stopped reports whether the run is over early, because of a violation or because its time is up.
func (c *Ctx) Stopped() bool { return c.stopped.Load() || c.late.Load() || c.timeUp(Deadline) }

// Deadline is when explorations stop, whatever is left of them; zero: never.
var Deadline time.Time

// Share is the deadline of one exploration among others that are still to come.
func Share() time.Time {
	if Deadline.IsZero() {
		return Deadline
	}
	return time.Now().Add(time.Until(Deadline) / 2)
}

func (c *Ctx) timeUp(d time.Time) bool {
	if d.IsZero() || !time.Now().After(d) {
		return false
	}
	if d.Equal(Deadline) && !c.late.Swap(true) {
		c.Bound(false, "the exploration was stopped when its time was up: the bounds above were not reached")
	}
	return true
}

func init() {
	if s, err := strconv.ParseInt(os.Getenv("MC_DEADLINE"), 10, 64); err == nil {
		Deadline = time.Unix(s, 0)
	}
}

// Bound records a bound of the exploration, complete tells whether everything below it was explored.
func (c *Ctx) Bound(complete bool, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.bounds = append(c.bounds, fmt.Sprintf(format, args...))
	if !complete {
		c.exhaustive = false
	}
}

// Extra adds a coverage field.
func (c *Ctx) Extra(key string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[key] = v
}

// Sample records an actual case.
func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 6 {
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Found returns what the run has found so far: violations, bounds, samples, and whether the
// exploration was complete within its bounds.
func (c *Ctx) Found() (viols []Violation, bounds, samples []string, exhaustive bool) {
	return c.viols, c.bounds, c.samples, c.exhaustive
}

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough {
		return t
	}
	return q
}

// Fail reports that the current case breaks the property, and ends the case.
func (w *W) Fail(format string, args ...any) { w.FailKey("", format, args...) }

// FailKey is Fail with an explicit key.
func (w *W) FailKey(key, format string, args ...any) {
	w.report(key, fmt.Sprintf(format, args...))
	panic(abort{})
}

func (w *W) description() string {
	if d := w.desc.Load(); d != nil {
		return (*d)()
	}
	return "?"
}

func (w *W) report(key, detail string) {
	d := w.description()
	if key == "" {
		key = d
	}
	w.C.addViolation(Violation{Key: key, Case: d, Detail: detail, Replay: w.replay})
}

// Violation reports a violation.
func (c *Ctx) Violation(v Violation) { c.addViolation(v) }

func (c *Ctx) addViolation(v Violation) {
	if len(v.Detail) > 8000 {
		v.Detail = v.Detail[:8000] + "..."
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.knownBy[v.Key] {
		for _, k := range c.known {
			if k.Key == v.Key {
				return
			}
		}
		c.known = append(c.known, v)
		return
	}
	c.viols = append(c.viols, v)
	c.stopped.Store(true)
}

// Case runs one case under the guard: a panic of the code under test is a violation.
// It reports whether the case ran to its end without a violation.
func (w *W) Case(desc func() string, f func()) (ok bool) {
	w.beat.Add(1)
	w.desc.Store(&desc)
	if traceFile != nil {
		traceCase(w.id, desc())
	}
	w.busy.Store(true)
	defer func() {
		w.busy.Store(false)
		if r := recover(); r != nil {
			if _, is := r.(abort); is {
				return
			}
			if Internal != nil && Internal(r) {
				panic(r)
			}
			w.report("", fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(debug.Stack())))
		}
	}()
	f()
	return true
}

// Internal recognises panic values that must not be taken for a panic of the code under test.
var Internal func(any) bool

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Catch runs f and returns the value it panicked with.
func Catch(f func()) (r any, panicked bool) {
	defer func() {
		if panicked {
			r = recover()
			if _, is := r.(abort); is {
				panic(r)
			}
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

// Parallel runs f for every i in [0,n) on the workers. Item i is always given to worker i mod Workers.
func (c *Ctx) Parallel(n int, f func(w *W, i int)) {
	var wg sync.WaitGroup
	for k := 0; k < c.Workers; k++ {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for i := w.id; i < n && !c.Stopped(); i += c.Workers {
				f(w, i)
			}
		}(c.workers[k])
	}
	wg.Wait()
}

// Serial runs f on the first worker.
func (c *Ctx) Serial(f func(w *W)) { f(c.workers[0]) }

// AddTransitions counts operations made outside of BFS.
func (c *Ctx) AddTransitions(n int64) { atomic.AddInt64(&c.Transitions, n) }

// AddEvals counts cases.
func (c *Ctx) AddEvals(n, nontrivial int64) {
	atomic.AddInt64(&c.Evals, n)
	atomic.AddInt64(&c.Nontrivial, nontrivial)
}

var traceFile *os.File

func traceCase(id int, d string) {
	if len(d) > 4000 {
		d = d[:4000]
	}
	buf := make([]byte, 4096)
	copy(buf, d)
	_, _ = traceFile.WriteAt(buf, int64(id)*4096)
}

func (c *Ctx) watch(out string) {
	type seen struct {
		beat int64
		at   time.Time
	}
	last := make([]seen, len(c.workers))
	for {
		time.Sleep(2 * time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		runaway := ms.HeapAlloc > 12<<30
		for i, w := range c.workers {
			b := w.beat.Load()
			if !w.busy.Load() || b != last[i].beat || last[i].at.IsZero() {
				last[i] = seen{b, time.Now()}
				continue
			}
			stuck := time.Since(last[i].at)
			if stuck > 100*time.Second || runaway && stuck > 3*time.Second {
				why := fmt.Sprintf("the case has not ended after %v (heap %d MB)", stuck.Round(time.Second), ms.HeapAlloc>>20)
				w.report("", why)
				c.write(out)
				os.Exit(0)
			}
		}
	}
}

func (c *Ctx) write(out string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	chk := registry[c.ID]
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	cov["exhaustive"] = c.exhaustive
	cov["bounds"] = c.bounds
	sort.Strings(c.samples)
	samples := c.samples
	if samples == nil {
		samples = []string{}
	}
	cov["samples"] = samples
	switch chk.Level {
	case "model_checking":
		cov["states"] = c.States
		cov["transitions"] = c.Transitions
		cov["traces_validated_against_impl"] = c.Traces
		cov["oracle"] = chk.Rule
		if c.Evals > 0 {
			cov["evaluations"] = c.Evals
		}
	default:
		cov["evaluations"] = c.Evals
		cov["distinct_nontrivial"] = c.Nontrivial
		cov["rule"] = chk.Rule
		if c.States > 0 {
			cov["states"] = c.States
			cov["transitions"] = c.Transitions
		}
	}
	r := Result{Property: c.ID, Coverage: cov, Violations: c.viols, Known: c.known}
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "write result:", err)
		os.Exit(3)
	}
}

// NewCtx makes a run that is not reported, for use inside another driver.
func NewCtx(id string, thorough bool, workers int) *Ctx {
	c := &Ctx{ID: id, Thorough: thorough, Workers: workers, exhaustive: true, extra: map[string]any{}, knownBy: map[string]bool{}}
	for i := 0; i < workers; i++ {
		c.workers = append(c.workers, &W{C: c, id: i})
	}
	return c
}

// Main runs the check named by the first argument: CHECK TIER RESULT [KNOWNKEYS.json].
func Main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: CHECK TIER RESULT [KNOWN]")
		os.Exit(3)
	}
	chk := registry[os.Args[1]]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "no check", os.Args[1])
		os.Exit(3)
	}
	c := NewCtx(chk.ID, os.Args[2] == "thorough", runtime.NumCPU())
	if len(os.Args) > 4 {
		b, err := os.ReadFile(os.Args[4])
		if err == nil {
			var keys []string
			if err = json.Unmarshal(b, &keys); err == nil {
				for _, k := range keys {
					c.knownBy[k] = true
				}
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if f := os.Getenv("MC_TRACE"); f != "" {
		var err error
		if traceFile, err = os.Create(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(800)
	go c.watch(os.Args[3])
	chk.Run(c)
	c.write(os.Args[3])
}

// IDs lists the registered checks.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
