// Command conc runs the checks of concurrent behaviour against the rewritten packages. It
// gives the programs of a property to worker processes of one processor each.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/core"
	"verif/progs"
	"verif/resets"
	"verif/rt"
)

// outcome is what a worker reports of a program.
type outcome struct {
	Name                       string
	Execs, States, Transitions int64
	Ended                      int64 // executions that ran to their end
	Steps, Outcomes            int
	Bound                      int // on preemptions; -1: none, -2: not explored completely
	Complete                   bool
	Key, Detail                string
	Trace                      []string
	Sample                     string
	Crash                      bool
	Seconds                    float64
	Bounds, Samples            []string // of a machine
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "-worker" {
		worker(os.Args[2], os.Args[3] == "thorough")
		return
	}
	if len(os.Args) >= 2 && os.Args[1] == "-selftest" {
		selftest()
		return
	}
	core.Main()
}

func init() {
	core.Internal = func(v any) bool {
		s := fmt.Sprint(v)
		return strings.Contains(s, "machinery:") || strings.HasPrefix(s, "rt: ")
	}
	for _, p := range progs.Checks() {
		p := p
		core.Register(p.ID, p.Level, p.Rule, func(c *core.Ctx) { check(c, p) })
	}
}

// check explores every program of a property.
func check(c *core.Ctx, p progs.Check) {
	ps := p.Progs(c.Thorough)
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	var todo []int
	for i := range ps { // MC_ONLY: for trying out
		if strings.Contains(ps[i].Name, os.Getenv("MC_ONLY")) {
			todo = append(todo, i)
		}
	}
	res := runAll(p.ID, tier, todo, c)
	var execs, ended int64
	outs := 0
	longest := 0
	complete := 0
	bounds := map[int]int{}
	type took struct {
		s string
		t float64
	}
	var times []took
	for i, o := range res {
		if o == nil {
			continue
		}
		execs += o.Execs
		ended += o.Ended
		c.States += o.States
		c.Transitions += o.Transitions
		outs += o.Outcomes
		longest = max(longest, o.Steps)
		if o.Complete {
			complete++
		}
		if o.Key == "" {
			bounds[o.Bound]++
		}
		if o.Seconds > 1 {
			times = append(times, took{fmt.Sprintf("%s: %d states, %.1f s", o.Name, o.States, o.Seconds), o.Seconds})
		}
		for _, b := range o.Bounds {
			c.Bound(o.Complete, "%s", b)
		}
		for _, b := range o.Samples {
			c.Sample(b)
		}
		if len(o.Bounds) == 0 && i%(1+len(res)/6) == 0 {
			c.Sample(fmt.Sprintf("%s: %d states, %d executions, %d outcomes, e.g. %s", o.Name, o.States, o.Execs, o.Outcomes, o.Sample))
		}
	}
	c.Traces = ended
	if p.Level != "model_checking" {
		c.AddEvals(execs, int64(outs))
	}
	c.Extra("programs", len(ps))
	c.Extra("programs_explored_completely", complete)
	c.Extra("executions_of_the_real_code", execs)
	c.Extra("distinct_outcomes", outs)
	c.Extra("longest_execution_steps", longest)
	if len(times) > 0 {
		sort.Slice(times, func(i, j int) bool { return times[i].t > times[j].t })
		var l []string
		for i := 0; i < len(times) && i < 10; i++ {
			l = append(l, times[i].s)
		}
		c.Extra("largest", l)
	}
	c.Bound(complete == len(ps), "%s", p.Bounds(c.Thorough))
	for b, n := range bounds {
		if b >= deviating {
			c.Bound(true, "%d larger programs under all schedules that deviate at most %d times from a deterministic scheduler (three of them)", n, b-deviating)
		} else if b >= 0 {
			c.Bound(true, "%d of the programs under all schedules of at most %d preemptions, and partly beyond that", n, b)
		} else if b == -2 {
			c.Bound(false, "%d of the programs partly", n)
		}
	}
}

func runAll(id, tier string, todo []int, c *core.Ctx) []*outcome {
	res := make([]*outcome, len(todo))
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for k := 0; k < c.Workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(todo) || c.Stopped() {
					return
				}
				if p == nil {
					p = start(id, tier)
				}
				o, err := p.run(todo[i])
				if err != "" {
					o = &outcome{Name: fmt.Sprint("program ", todo[i]), Key: "crash", Detail: err, Crash: true}
					p = nil
				}
				mu.Lock()
				if os.Getenv("MC_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%s: %d states, %d transitions, %d executions (%d to the end), %d outcomes, longest %d, bound %d, %.2f s; %s\n", o.Name, o.States, o.Transitions, o.Execs, o.Ended, o.Outcomes, o.Steps, o.Bound, o.Seconds, o.Key)
				}
				res[i] = o
				mu.Unlock()
				if o.Key != "" {
					if o.Crash && !ofCode(o.Detail) {
						fmt.Fprintf(os.Stderr, "%s: %s\n", o.Name, o.Detail)
						os.Exit(4)
					}
					c.Violation(core.Violation{Key: o.Name + ": " + o.Key, Case: "program " + o.Name + "\nschedule:\n" + strings.Join(o.Trace, "\n"), Detail: o.Detail})
				}
			}
		}()
	}
	wg.Wait()
	return res
}

// ofCode tells whether a crash of a worker is one of the code under test.
func ofCode(text string) bool {
	if strings.Contains(text, "machinery:") || strings.Contains(text, "rt: ") {
		return false
	}
	return strings.Contains(text, "miniLCT/gosb")
}

type proc struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	out  *bufio.Scanner
	done func()
	errb *tail
}

// tail keeps the beginning and the end of a stream.
type tail struct {
	mu   sync.Mutex
	head []byte
	b    []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 20000 - len(t.head); room > 0 {
		t.head = append(t.head, p[:min(room, len(p))]...)
	} else {
		t.b = append(t.b, p...)
		if len(t.b) > 40000 {
			t.b = append([]byte(nil), t.b[len(t.b)-20000:]...)
		}
	}
	return len(p), nil
}

func start(id, tier string) *proc {
	cmd := exec.Command(os.Args[0], "-worker", id, tier)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "GORACE=exitcode=0 history_size=2 suppress_equal_stacks=0 suppress_equal_addresses=0")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p := &proc{cmd: cmd, in: bufio.NewWriter(in), out: bufio.NewScanner(out), errb: &tail{}}
	p.out.Buffer(nil, 64<<20)
	cmd.Stderr = p.errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	p.done = func() { in.Close() }
	return p
}

func (p *proc) run(i int) (*outcome, string) {
	fmt.Fprintln(p.in, i)
	p.in.Flush()
	if !p.out.Scan() {
		err := p.cmd.Wait()
		p.errb.mu.Lock()
		defer p.errb.mu.Unlock()
		return nil, fmt.Sprintf("the process ended: %v\n%s\n...\n%s", err, p.errb.head, p.errb.b)
	}
	o := &outcome{}
	if err := json.Unmarshal(p.out.Bytes(), o); err != nil {
		return nil, "machinery: " + err.Error() + " " + p.out.Text()
	}
	if strings.HasPrefix(o.Key, "data race") {
		p.errb.mu.Lock()
		o.Detail += "\n" + string(p.errb.head)
		p.errb.mu.Unlock()
	}
	return o, ""
}

func (p *proc) stop() {
	p.done()
	_ = p.cmd.Wait()
}

// worker explores the programs whose numbers it reads.
func worker(id string, thorough bool) {
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	var ps []rt.Prog
	for _, p := range progs.Checks() {
		if p.ID == id {
			ps = p.Progs(thorough)
		}
	}
	go watch()
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil {
			panic(err)
		}
		b, err := json.Marshal(explore(&ps[i]))
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// watch ends the process if a goroutine of the program goes on for ever without any operation.
func watch() {
	busy.Lock()
	busy.Unlock()
	last, at := rt.Beat.Load(), time.Now()
	parent := os.Getppid()
	for {
		time.Sleep(time.Second)
		if os.Getppid() != parent {
			os.Exit(5)
		}
		b := rt.Beat.Load()
		if b != last || !busyNow() {
			last, at = b, time.Now()
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if d := time.Since(at); d > 60*time.Second || ms.HeapAlloc > 3<<30 && d > 2*time.Second {
			fmt.Fprintf(os.Stderr, "fatal error: no operation for %v (heap %d MB)\n", d.Round(time.Second), ms.HeapAlloc>>20)
			debug.SetTraceback("all")
			panic("stuck")
		}
	}
}

var (
	busy   sync.Mutex
	isBusy bool
)

func busyNow() bool {
	busy.Lock()
	defer busy.Unlock()
	return isBusy
}

func setBusy(b bool) {
	busy.Lock()
	isBusy = b
	busy.Unlock()
}

// deviating is added to a bound on deviations.
const deviating = 1000

// explore explores a program: under all schedules or, if that takes too many states, with at
// most 0, 1, 2, ... preemptions as far as the limit on states allows.
func explore(p *rt.Prog) *outcome {
	if p.Machine != nil {
		return search(p)
	}
	o := &outcome{Name: p.Name, Bound: -2}
	outs := map[string]bool{}
	t0 := time.Now()
	share := core.Share()
	run := func(x *rt.Explorer) bool {
		x.Deadline = core.Deadline
		if x.Bound < 0 || p.Base > 0 {
			x.Deadline = share
		}
		setBusy(true)
		x.Run(resets.All, p.Run)
		setBusy(false)
		o.Execs += x.Execs
		o.Steps = max(o.Steps, x.Steps)
		if x.States > o.States { // the runs cover some states repeatedly: the largest counts
			o.States, o.Transitions = x.States, x.Transitions
		}
		for s, n := range x.Outcomes {
			o.Ended += n
			outs[s] = true
			if o.Sample == "" || s < o.Sample {
				o.Sample = s
			}
		}
		if x.Fail != nil {
			o.Key, o.Detail, o.Trace = x.Fail.Key, x.Fail.Detail, x.Trace
			return false
		}
		return x.Complete
	}
	x := p.Explorer()
	if run(x) {
		if o.Bound = x.Bound; p.Base > 0 {
			o.Bound = deviating + x.Bound
		}
	} else if o.Key == "" && x.Bound < 0 {
		for b := 0; ; b++ {
			x := p.Explorer()
			x.Bound = b
			if !run(x) {
				break
			}
			o.Bound = b
		}
	}
	o.Complete = o.Bound == -1 || o.Bound >= deviating
	o.Outcomes = len(outs)
	o.Seconds = time.Since(t0).Seconds()
	return o
}

// search explores a machine or runs an enumeration: every path is run in one thread, with virtual
// time and files.
func search(p *rt.Prog) *outcome {
	t0 := time.Now()
	c := core.NewCtx("", false, 1)
	exec := func(body func()) {
		rt.Beat.Add(1)
		f := rt.Single(func() {
			resets.All()
			body()
		})
		if f != nil {
			panic(fmt.Sprintf("%s: %s", f.Key, f.Detail))
		}
	}
	o := &outcome{Name: p.Name, Bound: -1}
	setBusy(true)
	switch m := p.Machine.(type) {
	case *core.Machine:
		m.Exec = exec
		st := c.BFS(m)
		o.States, o.Transitions, o.Execs, o.Ended, o.Outcomes = int64(st.States), int64(st.Transitions), c.Traces, c.Traces, st.States
	case func(*core.Ctx, func(func())):
		m(c, exec)
		o.States, o.Transitions, o.Execs, o.Ended, o.Outcomes = c.States, c.Transitions, c.Evals, c.Evals, int(c.Nontrivial)
	default:
		panic(fmt.Sprintf("machinery: %T", m))
	}
	setBusy(false)
	var viols []core.Violation
	viols, o.Bounds, o.Samples, o.Complete = c.Found()
	if len(viols) > 0 {
		v := viols[0]
		o.Key, o.Detail = v.Key, v.Detail
		o.Trace = strings.Split(v.Case, " ; ")
	}
	o.Seconds = time.Since(t0).Seconds()
	return o
}
