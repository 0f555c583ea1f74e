package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"

	"vsimrt"
)

// Violation is one property violation found by a run.
type Violation struct {
	Class string `json:"class"`           // what kind of violation (stable under minimisation)
	Msg   string `json:"msg"`             // details
	Known string `json:"known,omitempty"` // id of the known finding it matches
}

// RunSpec identifies one run completely: seed (search) or tapes (replay).
type RunSpec struct {
	Prop  string              `json:"prop"`
	Index uint64              `json:"index"`
	Seed  uint64              `json:"seed"`
	Tier  string              `json:"tier"`
	Tapes map[string][]uint32 `json:"tapes,omitempty"`
	// Replay: draw from Tapes (0 when exhausted) instead of the seed.
	Replay bool `json:"replay"`
	// Skip is known findings to ignore (search only).
}

// Result is what one run reports.
type Result struct {
	Index    uint64              `json:"i"`
	Hash     uint64              `json:"h"`           // interleaving/fault-history fingerprint
	Trivial  bool                `json:"t,omitempty"` // precondition not reached
	Viol     []Violation         `json:"v,omitempty"`
	Tapes    map[string][]uint32 `json:"tapes,omitempty"`
	Trace    []string            `json:"trace,omitempty"`
	Sample   string              `json:"sample,omitempty"`
	Steps    int64               `json:"s,omitempty"`
	Faults   map[string]int      `json:"-"`
	Switches uint64              `json:"-"`
	Cover    map[string]int      `json:"-"`
}

// Ctx is the context of one run.
type Ctx struct {
	Spec      RunSpec
	tapes     []*vsimrt.Tape
	viol      []Violation
	trace     []string
	Faults    map[string]int
	Cover     map[string]int
	trivial   bool
	sample    string
	fp        uint64
	steps     int64
	sched     *vsimrt.Tape
	tasks     []*Task
	phase     int
	hangMsg   string
	blockSd   uint64
	nuisances []*nuisance
}

// Tape returns the named choice stream.
func (c *Ctx) Tape(name string) *vsimrt.Tape {
	for _, t := range c.tapes {
		if t.Name == name {
			return t
		}
	}
	t := vsimrt.NewTape(name, c.Spec.Seed, c.Spec.Tapes[name], c.Spec.Replay)
	c.tapes = append(c.tapes, t)
	return t
}

const maxTrace = 4000

// Log adds a line to the execution trace.
func (c *Ctx) Log(format string, a ...any) {
	if len(c.trace) < maxTrace {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

// Fail records a violation.
func (c *Ctx) Fail(class, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if len(m) > 1500 {
		m = m[:1500] + "…"
	}
	c.viol = append(c.viol, Violation{Class: class, Msg: m})
	c.Log("VIOLATION %s: %s", class, m)
}

// Fault counts a fault that was actually injected.
func (c *Ctx) Fault(kind string) { c.Faults[kind]++ }

// Note counts a coverage item.
func (c *Ctx) Note(kind string) { c.Cover[kind]++ }

// FP mixes v into the run's fingerprint.
func (c *Ctx) FP(v uint64) { c.fp = (c.fp ^ v) * 0x9E3779B97F4A7C15; c.fp ^= c.fp >> 29 }

// Task is one simulated goroutine driving the code under test.
type Task struct {
	c     *Ctx
	Name  string
	tape  *vsimrt.Tape
	fn    func(*Task)
	Panic any
	Stack string
	Done  bool
	log   []string
	fault []string
}

func (t *Task) Fault(kind string) { t.fault = append(t.fault, kind) }
func (t *Task) Log(format string, a ...any) {
	if len(t.log) < 400 {
		t.log = append(t.log, fmt.Sprintf(format, a...))
	}
}

// N draws from the task's own stream.
func (t *Task) N(n int) int { return t.tape.N(n) }

// Go registers a task; Run starts them together.
func (c *Ctx) Go(name string, fn func(*Task)) *Task {
	t := &Task{c: c, Name: name, fn: fn}
	t.tape = c.Tape(fmt.Sprintf("task%d.%d", c.phase, len(c.tasks)))
	c.tasks = append(c.tasks, t)
	return t
}

func (t *Task) main(wg *sync.WaitGroup) {
	defer wg.Done()
	defer func() {
		if r := recover(); r != nil {
			t.Panic = r
			t.Stack = trimStack(string(debug.Stack()))
		}
		t.Done = true
	}()
	t.fn(t)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "main.") {
			continue
		}
		out = append(out, l)
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

var means = []int{2000, 400, 80, 20, 6, 2}

const stepLimit = 60_000_000

// Run executes the registered tasks under the simulated scheduler until all
// have finished. Everything random about the phase comes from the "cfg" and
// "sched" streams.
func (c *Ctx) Run() {
	cfg := c.Tape("cfg")
	mean := means[cfg.N(len(means))]
	block := uint64(cfg.U32())
	maps := uint64(cfg.U32())
	c.RunWith(mean, block, maps)
}

// RunWith is Run with the phase's parameters given.
func (c *Ctx) RunWith(mean int, block, maps uint64) {
	if c.sched == nil {
		c.sched = vsimrt.NewSched(c.Spec.Seed, c.Spec.Tapes["sched"], c.Spec.Replay)
	}
	if c.phase == 0 {
		vsimrt.ClearPools()
	}
	tasks := c.tasks
	var wg sync.WaitGroup
	wg.Add(len(tasks))
	g0 := runtime.NumGoroutine()
	vsimrt.ResetHash()
	vsimrt.On(vsimrt.Params{Sched: c.sched, Mean: mean, BlockSeed: block, MapSeed: maps*2654435761 + 1, Limit: stepLimit, OnHang: func() { hangExit("step limit exceeded") }})
	for _, t := range tasks {
		go t.main(&wg)
	}
	wg.Wait()
	// let goroutines the code under test left behind finish
	for i := 0; i < 2000 && runtime.NumGoroutine() > g0; i++ {
		vsimrt.Seam()
	}
	vsimrt.Off()
	c.steps += vsimrt.Steps()
	c.FP(vsimrt.SchedHash())
	for _, t := range tasks {
		for _, l := range t.log {
			c.Log("[%s] %s", t.Name, l)
		}
		for _, f := range t.fault {
			c.Fault(f)
			c.FP(vsimrt.Hash64(f))
		}
		if t.Panic != nil {
			c.Log("[%s] panic: %v", t.Name, t.Panic)
		}
	}
	if n := runtime.NumGoroutine() - g0; n > 0 {
		c.goroutinesLeft(n)
	}
	c.tasks = nil
	c.phase++
}

func (c *Ctx) goroutinesLeft(n int) {
	c.Cover["goroutines left"] += n
	if c.Spec.Prop != "C16" {
		return
	}
	c.Fail("goroutine-leak", "%d goroutine(s) started by the operation were still there after it returned", n)
}

// hangExit reports a hang and ends the process: the driver treats the exit
// code as the run's outcome.
func hangExit(msg string) {
	buf := make([]byte, 1<<14)
	n := runtime.Stack(buf, false)
	os.Stderr.WriteString("VERIF-HANG " + msg + "\n" + string(buf[:n]) + "\n")
	syscall.Exit(97)
}

// Scenario decides one property.
type Scenario struct {
	ID    string
	Title string
	// Runs per quick check (all workers together) and whether part of the
	// runs use the race-detector build.
	Quick    int
	Thorough int
	Race     int // percent of runs executed in the race-detector build
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	Run      func(c *Ctx)
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.ID] = s }

func seedOf(base uint64, prop string, i uint64) uint64 {
	h := vsimrt.Hash64(prop) ^ base*0x9E3779B97F4A7C15 ^ i*0xD1B54A32D192ED03
	h = (h ^ (h >> 31)) * 0x94D049BB133111EB
	return h ^ (h >> 29)
}

// Execute performs one run.
func Execute(spec RunSpec, keep bool) (res Result, ctx *Ctx) {
	sc := scenarios[spec.Prop]
	c := &Ctx{Spec: spec, Faults: map[string]int{}, Cover: map[string]int{}}
	sw := vsimrt.Switches()
	func() {
		defer func() {
			if r := recover(); r != nil {
				// a bug in the harness itself: never a violation
				fmt.Fprintf(os.Stderr, "VERIF-HARNESS-PANIC %v\n%s\n", r, debug.Stack())
				syscall.Exit(96)
			}
		}()
		sc.Run(c)
	}()
	vsimrt.SetNow(nil)
	vsimrt.InstallFS(nil)
	for _, q := range c.nuisances {
		q.flush()
	}
	res = Result{Index: spec.Index, Trivial: c.trivial, Viol: c.viol, Sample: c.sample, Faults: c.Faults, Cover: c.Cover, Switches: vsimrt.Switches() - sw, Steps: c.steps}
	for _, t := range c.tapes {
		if strings.HasPrefix(t.Name, "task") || t.Name == "cfg" || t.Name == "io" {
			for _, v := range t.Rec {
				c.FP(uint64(v))
			}
		}
	}
	res.Hash = c.fp
	if keep || len(c.viol) > 0 {
		res.Tapes = map[string][]uint32{}
		for _, t := range c.tapes {
			res.Tapes[t.Name] = append([]uint32(nil), t.Rec...)
		}
		if c.sched != nil {
			res.Tapes["sched"] = append([]uint32(nil), c.sched.Rec...)
		}
		res.Trace = c.trace
	}
	return res, c
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
