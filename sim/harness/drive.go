package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------- known findings

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Class    string `json:"class"` // regular expressions
	Msg      string `json:"msg"`
	What     string `json:"what"`
	class    *regexp.Regexp
	msg      *regexp.Regexp
}

type knownFile struct {
	Known []*knownFinding `json:"known"`
	Fixed []string        `json:"fixed"`
}

var known *knownFile

func loadKnown() *knownFile {
	if known != nil {
		return known
	}
	known = &knownFile{}
	p := os.Getenv("VERIF_KNOWN")
	if p == "" {
		return known
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return known
	}
	if err := json.Unmarshal(b, known); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings file:", err)
		os.Exit(3)
	}
	for _, k := range known.Known {
		k.class = regexp.MustCompile(k.Class)
		k.msg = regexp.MustCompile(k.Msg)
	}
	return known
}

func matchKnown(prop string, v Violation) *knownFinding {
	for _, k := range loadKnown().Known {
		if k.Property == prop && k.class.MatchString(v.Class) && k.msg.MatchString(v.Msg) {
			return k
		}
	}
	return nil
}

// ---------------------------------------------------------- driver

type found struct {
	bin   string
	index uint64
	v     Violation
	tapes map[string][]uint32
	death bool
	from  uint64 // first index this worker process ran
	strd  uint64
	order int64
}

type driver struct {
	prop, tier, out string
	sc              *Scenario
	base            uint64
	deadline        time.Time
	scratch         string
	verif           string

	mu       sync.Mutex
	finds    []found
	hashes   map[uint64]bool
	total    stats
	raceRuns int
	knownHit map[string]int
	deaths   int
	harness  string
	firstH   map[string]map[uint64]string // bin -> index -> hash of the first worker
}

func (d *driver) cmd(bin string, ws string, args ...string) *exec.Cmd {
	name := "sim"
	if bin == "race" {
		name = "sim-race"
	}
	c := exec.Command(filepath.Join(d.out, name), args...)
	os.MkdirAll(ws, 0755)
	c.Env = append(os.Environ(), "VERIF_SCRATCH="+ws, "GOTRACEBACK=all")
	if bin == "race" {
		c.Env = append(c.Env, "VERIF_RACELOG="+ws+".racelog", "GORACE=log_path="+ws+".racelog halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2")
	}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	return c
}

// tail keeps the last part of what is written to it, and the first.
type tail struct {
	head, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if len(t.head) < 1<<16 {
		t.head = append(t.head, p...)
	} else {
		t.last = append(t.last, p...)
		if len(t.last) > 1<<16 {
			t.last = t.last[len(t.last)-1<<15:]
		}
	}
	return len(p), nil
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+|\d{3,}`)

// deathClass names how a run ended the process.
func deathClass(state *os.ProcessState, errTxt string, killed bool) (class, msg string) {
	if killed {
		return "hang", "the run did not end within 60 s of real time"
	}
	ws, _ := state.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return "killed", "the process was ended by " + ws.Signal().String()
	}
	switch ws.ExitStatus() {
	case 97:
		return "hang", clip(errTxt, 1200)
	case 96:
		return "harness", clip(errTxt, 3000)
	}
	for _, l := range strings.Split(errTxt, "\n") {
		if strings.HasPrefix(l, "fatal error: ") {
			l = hexRe.ReplaceAllString(strings.TrimPrefix(l, "fatal error: "), "N")
			if strings.Contains(l, "asleep") {
				return "deadlock", clip(errTxt, 1200)
			}
			return "crash:" + clip(l, 80), clip(errTxt, 1200)
		}
		if strings.HasPrefix(l, "panic: ") {
			return "crash:panic in " + crashFunc(errTxt), clip(errTxt, 1200)
		}
	}
	return fmt.Sprintf("crash:exit status %d", ws.ExitStatus()), clip(errTxt, 1200)
}

func crashFunc(txt string) string {
	for _, l := range strings.Split(txt, "\n") {
		if strings.HasPrefix(l, "\t") || !strings.Contains(l, "(") {
			continue
		}
		f := l[:strings.LastIndex(l, "(")]
		if strings.HasPrefix(f, "github.com/") {
			return shortFunc(f)
		}
	}
	return "unknown"
}

// worker runs indices from, from+stride, ... < to in one process at a time.
func (d *driver) worker(bin string, id int, from, to, stride uint64) {
	ws := filepath.Join(d.scratch, fmt.Sprintf("%c%02d", bin[0], id))
	next := from
	for next < to && time.Now().Before(d.deadline) {
		first := next
		c := d.cmd(bin, ws, "work", "-prop", d.prop, "-tier", d.tier, "-base", fmt.Sprint(d.base), "-from", fmt.Sprint(next), "-to", fmt.Sprint(to), "-stride", fmt.Sprint(stride), "-deadline", fmt.Sprint(d.deadline.Unix()))
		var errb tail
		c.Stderr = &errb
		pipe, _ := c.StdoutPipe()
		if err := c.Start(); err != nil {
			d.mu.Lock()
			d.harness = err.Error()
			d.mu.Unlock()
			return
		}
		killed := false
		timer := time.AfterFunc(60*time.Second, func() { killed = true; syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
		cur := next
		started := false
		rd := bufio.NewReaderSize(pipe, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				break
			}
			l = strings.TrimSuffix(l, "\n")
			timer.Reset(60 * time.Second)
			switch {
			case strings.HasPrefix(l, "B "):
				cur, _ = strconv.ParseUint(l[2:], 10, 64)
				started = true
			case strings.HasPrefix(l, "H "):
				started = false
				if id == 0 {
					f := strings.Fields(l)
					i, _ := strconv.ParseUint(f[1], 10, 64)
					if i < 12*stride {
						d.mu.Lock()
						if d.firstH[bin] == nil {
							d.firstH[bin] = map[uint64]string{}
						}
						d.firstH[bin][i] = f[2]
						d.mu.Unlock()
					}
				}
			case strings.HasPrefix(l, "V "):
				var r Result
				if json.Unmarshal([]byte(l[2:]), &r) == nil {
					d.record(bin, r, first, stride)
				}
			case strings.HasPrefix(l, "S "):
				var s stats
				if json.Unmarshal([]byte(l[2:]), &s) == nil {
					d.merge(bin, s)
				}
			}
		}
		io.Copy(io.Discard, rd)
		c.Wait()
		timer.Stop()
		if c.ProcessState.Success() && !killed {
			return
		}
		if !started {
			// died between runs or before the first: not attributable
			cur = next
		}
		class, msg := deathClass(c.ProcessState, string(errb.head)+string(errb.last), killed)
		d.mu.Lock()
		d.deaths++
		if class == "harness" {
			d.harness = msg
			d.mu.Unlock()
			return
		}
		idx := cur
		if bin == "race" {
			idx += raceBase
		}
		d.finds = append(d.finds, found{bin: bin, index: idx, v: Violation{Class: class, Msg: msg}, death: true, from: first, strd: stride})
		many := d.deaths > 40
		d.mu.Unlock()
		if many {
			return
		}
		next = cur + stride
	}
}

func (d *driver) record(bin string, r Result, first, stride uint64) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, v := range r.Viol {
		if k := matchKnown(d.prop, v); k != nil {
			d.knownHit[k.ID]++
			continue
		}
		d.finds = append(d.finds, found{bin: bin, index: r.Index, v: v, tapes: r.Tapes, from: first, strd: stride})
	}
}

func (d *driver) merge(bin string, s stats) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.total.Runs += s.Runs
	if bin == "race" {
		d.raceRuns += s.Runs
	}
	d.total.Trivial += s.Trivial
	d.total.Switches += s.Switches
	d.total.Yields += s.Yields
	d.total.Steps += s.Steps
	d.total.SimNanos += s.SimNanos
	for _, h := range s.Hashes {
		d.hashes[h] = true
	}
	for k, n := range s.Faults {
		d.total.Faults[k] += n
	}
	for k, n := range s.Cover {
		d.total.Cover[k] += n
	}
	if len(d.total.Samples) < 4 {
		d.total.Samples = append(d.total.Samples, s.Samples...)
	}
}

// replay runs a replay file in a fresh process.
func (d *driver) replay(f *ReplayFile, dump string) (viol []Violation, res *Result, death string) {
	n := d.tmp()
	p := filepath.Join(d.scratch, n+".json")
	b, _ := json.Marshal(f)
	os.WriteFile(p, b, 0644)
	defer os.Remove(p)
	args := []string{"replay", "-file", p}
	if dump != "" {
		args = append(args, "-dump", dump)
	}
	ws := filepath.Join(d.scratch, n)
	c := d.cmd(f.Binary, ws, args...)
	defer os.RemoveAll(ws)
	var errb tail
	var outb bytes.Buffer
	c.Stderr, c.Stdout = &errb, &outb
	if err := c.Start(); err != nil {
		return nil, nil, "harness: " + err.Error()
	}
	killed := false
	timer := time.AfterFunc(90*time.Second, func() { killed = true; syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	c.Wait()
	timer.Stop()
	if logs, _ := filepath.Glob(ws + ".racelog*"); logs != nil {
		for _, l := range logs {
			os.Remove(l)
		}
	}
	if !c.ProcessState.Success() || killed {
		class, msg := deathClass(c.ProcessState, string(errb.head)+string(errb.last), killed)
		return []Violation{{Class: class, Msg: msg}}, nil, class
	}
	for _, l := range strings.Split(outb.String(), "\n") {
		if strings.HasPrefix(l, "V ") {
			r := &Result{}
			if json.Unmarshal([]byte(l[2:]), r) == nil {
				return r.Viol, r, ""
			}
		}
	}
	return nil, nil, "harness: no output"
}

var tmpN int
var tmpMu sync.Mutex

func (d *driver) tmp() string {
	tmpMu.Lock()
	defer tmpMu.Unlock()
	tmpN++
	return fmt.Sprintf("r%03d", tmpN)
}

func has(prop string, vs []Violation, class string) (Violation, bool) {
	for _, v := range vs {
		if v.Class == class && matchKnown(prop, v) == nil {
			return v, true
		}
	}
	return Violation{}, false
}

// confirm reproduces a finding in fresh processes and minimises it.
func (d *driver) confirm(f found) *ReplayFile {
	rf := &ReplayFile{Property: d.prop, Class: f.v.Class, Message: f.v.Msg, Binary: f.bin, Seed: seedOf(d.base, d.prop, f.index), Tier: d.tier, Index: f.index, Base: d.base, Tapes: f.tapes, Death: f.death}
	if f.death {
		rf.FromSeed = true
		dump := filepath.Join(d.scratch, d.tmp()+".tape")
		vs, _, _ := d.replay(rf, dump)
		v, ok := has(d.prop, vs, f.v.Class)
		if !ok {
			return d.withHistory(rf, f)
		}
		rf.Message = v.Msg
		if t := readDump(dump); t != nil {
			g := *rf
			g.FromSeed, g.Tapes = false, t
			if vs, _, _ := d.replay(&g, ""); vs != nil {
				if _, ok := has(d.prop, vs, f.v.Class); ok {
					rf = &g
				}
			}
		}
		os.Remove(dump)
		if rf.FromSeed {
			return rf
		}
		return d.shrinkOutside(rf, 15*time.Second)
	}
	vs, res, _ := d.replay(rf, "")
	v, ok := has(d.prop, vs, f.v.Class)
	if !ok {
		return d.withHistory(rf, f)
	}
	rf.Message = v.Msg
	if res != nil {
		rf.Trace, rf.TraceHash = res.Trace, traceHash(res.Trace)
	}
	if f.bin == "race" {
		// the race detector reports a pair of stacks once per process
		return d.shrinkOutside(rf, 20*time.Second)
	}
	n := d.tmp()
	in, out := filepath.Join(d.scratch, n+".in"), filepath.Join(d.scratch, n+".out")
	b, _ := json.Marshal(rf)
	os.WriteFile(in, b, 0644)
	c := d.cmd(f.bin, filepath.Join(d.scratch, n), "shrink", "-file", in, "-out", out, "-secs", "15")
	c.Stdout, c.Stderr = io.Discard, io.Discard
	if c.Start() == nil {
		t := time.AfterFunc(40*time.Second, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
		c.Wait()
		t.Stop()
	}
	if g, err := readReplay(out); err == nil {
		vs, res, _ := d.replay(g, "")
		if v, ok := has(d.prop, vs, f.v.Class); ok {
			g.Message = v.Msg
			if res != nil {
				g.Trace, g.TraceHash = res.Trace, traceHash(res.Trace)
			}
			return g
		}
	}
	return rf
}

// shrinkOutside minimises with one fresh process per candidate.
func (d *driver) shrinkOutside(rf *ReplayFile, limit time.Duration) *ReplayFile {
	best := rf
	test := func(t map[string][]uint32) (map[string][]uint32, bool) {
		g := *rf
		g.Tapes, g.FromSeed = t, false
		vs, res, _ := d.replay(&g, "")
		if _, ok := has(d.prop, vs, rf.Class); ok {
			if res != nil && res.Tapes != nil {
				return res.Tapes, true
			}
			return t, true
		}
		return nil, false
	}
	save := func(t map[string][]uint32) {
		g := *rf
		g.Tapes, g.Minimised = t, true
		best = &g
	}
	shrink(rf.Tapes, test, save, time.Now().Add(limit))
	vs, res, _ := d.replay(best, "")
	if v, ok := has(d.prop, vs, rf.Class); ok {
		best.Message = v.Msg
		if res != nil {
			best.Trace, best.TraceHash = res.Trace, traceHash(res.Trace)
		}
		return best
	}
	return rf
}

// withHistory handles a violation that depends on what ran before it in the
// same process.
func (d *driver) withHistory(rf *ReplayFile, f found) *ReplayFile {
	plain := f.index
	add := uint64(0)
	if f.bin == "race" {
		plain -= raceBase
		add = raceBase
	}
	var all []uint64
	for i := f.from; i < plain; i += f.strd {
		all = append(all, i+add)
	}
	try := func(h []uint64) (*ReplayFile, bool) {
		g := *rf
		g.History, g.FromSeed, g.Tapes = h, true, nil
		vs, res, _ := d.replay(&g, "")
		v, ok := has(d.prop, vs, rf.Class)
		if !ok {
			return nil, false
		}
		g.Message = v.Msg
		if res != nil {
			g.Trace, g.TraceHash = res.Trace, traceHash(res.Trace)
		}
		return &g, true
	}
	end := time.Now().Add(40 * time.Second)
	for n := 1; n < 2*len(all) && time.Now().Before(end); n *= 2 {
		k := n
		if k > len(all) {
			k = len(all)
		}
		if g, ok := try(all[len(all)-k:]); ok {
			// drop single runs
			for i := 0; i < len(g.History) && time.Now().Before(end); {
				h := append(append([]uint64(nil), g.History[:i]...), g.History[i+1:]...)
				if g2, ok := try(h); ok {
					g = g2
				} else {
					i++
				}
			}
			g.Minimised = true
			return g
		}
	}
	return nil
}

func readDump(p string) map[string][]uint32 {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	t := map[string][]uint32{}
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.LastIndexByte(l, ' ')
		if i < 0 {
			continue
		}
		v, err := strconv.ParseUint(l[i+1:], 10, 32)
		if err != nil {
			continue
		}
		t[l[:i]] = append(t[l[:i]], uint32(v))
	}
	return t
}

// selfTest re-runs the first runs of worker 0 in a fresh process.
func (d *driver) selfTest(stride uint64) (n, bad int) {
	h := d.firstH["plain"]
	if len(h) == 0 {
		return
	}
	c := d.cmd("plain", filepath.Join(d.scratch, "self"), "work", "-prop", d.prop, "-tier", d.tier, "-base", fmt.Sprint(d.base), "-from", "0", "-to", fmt.Sprint(12*stride), "-stride", fmt.Sprint(stride), "-deadline", fmt.Sprint(time.Now().Add(20*time.Second).Unix()))
	b, _ := c.Output()
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "H ") {
			continue
		}
		f := strings.Fields(l)
		i, _ := strconv.ParseUint(f[1], 10, 64)
		if w, ok := h[i]; ok {
			n++
			if w != f[2] {
				bad++
			}
		}
	}
	return
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func driveMain(args []string) {
	fl := flag.NewFlagSet("drive", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	verif := fl.String("verif", "/verif", "")
	out := fl.String("out", "", "directory with the sim binaries")
	replay := fl.String("replay", "", "replay this file instead of searching")
	cap := fl.Int("cap", 0, "seconds of search")
	runs := fl.Int("runs", 0, "number of runs")
	fl.Parse(args)
	start := time.Now()
	d := &driver{prop: *prop, tier: *tier, out: *out, base: *seed, verif: *verif, hashes: map[uint64]bool{}, knownHit: map[string]int{}, firstH: map[string]map[uint64]string{}}
	d.total = stats{Faults: map[string]int{}, Cover: map[string]int{}}
	root := "/dev/shm"
	if st, err := os.Stat(root); err != nil || !st.IsDir() {
		root = ""
	}
	dir := filepath.Join(root, fmt.Sprintf("vsim%010d", os.Getpid()))
	if root == "" {
		dir = filepath.Join("/tmp", fmt.Sprintf("vsim%010d", os.Getpid()))
	}
	os.RemoveAll(dir)
	err := os.Mkdir(dir, 0755)
	if err != nil {
		dir, err = os.MkdirTemp("", "vsim")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	d.scratch = dir
	code := 3
	defer func() {
		os.RemoveAll(dir)
		os.Exit(code)
	}()
	loadKnown()
	if *replay != "" {
		code = d.replayCmd(*replay)
		return
	}
	d.sc = scenarios[*prop]
	if d.sc == nil {
		fmt.Fprintln(os.Stderr, "no scenario", *prop)
		return
	}
	n := d.sc.Quick
	secs := 100
	if *tier == "thorough" {
		n = d.sc.Thorough
		secs = 1500
	}
	if *cap > 0 {
		secs = *cap
	}
	if *runs > 0 {
		n = *runs
	}
	d.deadline = start.Add(time.Duration(secs) * time.Second)
	procs := 8
	np, nr := procs, 0
	var rruns int
	if d.sc.Race > 0 {
		nr = 3
		np = procs - nr
		rruns = n * d.sc.Race / 100
	}
	pruns := n - rruns
	var wg sync.WaitGroup
	for w := 0; w < np; w++ {
		wg.Add(1)
		go func(w int) { defer wg.Done(); d.worker("plain", w, uint64(w), uint64(pruns), uint64(np)) }(w)
	}
	for w := 0; w < nr; w++ {
		wg.Add(1)
		go func(w int) { defer wg.Done(); d.worker("race", w, uint64(w), uint64(rruns), uint64(nr)) }(w)
	}
	wg.Wait()
	searchWall := time.Since(start)
	if d.harness != "" {
		fmt.Fprintln(os.Stderr, "harness failure:", d.harness)
		return
	}
	selfN, selfBad := d.selfTest(uint64(np))

	// group by class, smallest index first: the order does not depend on timing
	sort.SliceStable(d.finds, func(i, j int) bool { return d.finds[i].index < d.finds[j].index })
	byClass := map[string][]found{}
	var classes []string
	for _, f := range d.finds {
		if k := matchKnown(d.prop, f.v); k != nil {
			d.knownHit[k.ID]++
			continue
		}
		if byClass[f.v.Class] == nil {
			classes = append(classes, f.v.Class)
		}
		byClass[f.v.Class] = append(byClass[f.v.Class], f)
	}
	unconfirmed := []string{}
	var confirmed []*ReplayFile
	var cwg sync.WaitGroup
	var cmu sync.Mutex
	for ci, cl := range classes {
		if ci >= 6 {
			unconfirmed = append(unconfirmed, cl+" (not tried)")
			continue
		}
		cwg.Add(1)
		go func(fs []found) {
			defer cwg.Done()
			var rf *ReplayFile
			for i := 0; i < len(fs) && i < 3 && rf == nil; i++ {
				rf = d.confirm(fs[i])
			}
			cmu.Lock()
			defer cmu.Unlock()
			if rf == nil {
				unconfirmed = append(unconfirmed, fs[0].v.Class+": "+clip(fs[0].v.Msg, 300))
			} else {
				confirmed = append(confirmed, rf)
			}
		}(byClass[cl])
	}
	cwg.Wait()
	sort.Slice(confirmed, func(i, j int) bool { return confirmed[i].Index < confirmed[j].Index })
	for _, k := range known.Known {
		if k.Property == d.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen in %d runs)\n", d.prop, k.ID, k.What, d.knownHit[k.ID])
		}
	}
	rdir := filepath.Join(d.verif, ".work", "replay")
	os.MkdirAll(rdir, 0755)
	var vlist []any
	for i, rf := range confirmed {
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", d.prop, d.base, i))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, p)
		fmt.Printf("  class: %s\n  seed: %d (run %d, %s build, base seed %d)\n  %s\n", rf.Class, rf.Seed, rf.Index, rf.Binary, rf.Base, strings.ReplaceAll(clip(rf.Message, 1500), "\n", "\n  "))
		for j, l := range rf.Trace {
			if j > 60 {
				fmt.Println("    ...")
				break
			}
			fmt.Println("    " + clip(l, 400))
		}
		vlist = append(vlist, map[string]any{"class": rf.Class, "replay": p, "message": clip(rf.Message, 500)})
	}
	for _, u := range unconfirmed {
		fmt.Printf("note: not reproduced in a fresh process, not reported: %s\n", clip(u, 400))
	}
	wall := time.Since(start).Seconds()
	hours := searchWall.Hours()
	sort.Strings(d.total.Samples)
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.base, "level": "exploration", "wall_s": round(wall),
		"violations": len(confirmed), "violation_list": vlist,
		"assumptions": d.sc.Assume,
		"coverage": map[string]any{
			"evaluations":               d.total.Runs,
			"distinct_nontrivial":       len(d.hashes),
			"trivial_runs":              d.total.Trivial,
			"rule":                      d.sc.Rule,
			"samples":                   d.total.Samples,
			"runs_per_hour":             int(float64(d.total.Runs) / hours),
			"seeds_per_hour":            int(float64(d.total.Runs) / hours),
			"race_detector_runs":        d.raceRuns,
			"simulated_time_s":          round(float64(d.total.SimNanos) / 1e9),
			"statements_executed":       d.total.Steps,
			"scheduling_decisions":      d.total.Yields,
			"goroutine_switches":        d.total.Switches,
			"faults_injected":           d.total.Faults,
			"covered":                   d.total.Cover,
			"distinct_interleavings":    len(d.hashes),
			"interleaving_measure":      "64-bit hash of the goroutine switch sequence, of every fault and of every workload choice of a run",
			"real_components":           d.sc.Real,
			"stub_components":           d.sc.Stub,
			"determinism_replayed_runs": selfN,
			"determinism_mismatches":    selfBad,
			"known_finding_runs":        d.knownHit,
			"worker_deaths":             d.deaths,
			"unconfirmed":               unconfirmed,
			"deciding_step":             "seeded random search over schedules, faults and inputs",
		},
	}
	edir := filepath.Join(d.verif, "evidence")
	os.MkdirAll(edir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, d.prop+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	fmt.Printf("%s %s: %d runs (%d distinct, %d with the race detector) in %.0f s, %d violations, %d known, self-test %d/%d\n", d.prop, d.tier, d.total.Runs, len(d.hashes), d.raceRuns, wall, len(confirmed), len(d.knownHit), selfN-selfBad, selfN)
	code = 0
	if len(confirmed) > 0 {
		code = 1
	}
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// replayCmd re-executes a replay file: exit 1 when the violation recurs.
func (d *driver) replayCmd(p string) int {
	rf, err := readReplay(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	d.prop = rf.Property
	vs, res, death := d.replay(rf, "")
	if strings.HasPrefix(death, "harness") {
		fmt.Fprintln(os.Stderr, death)
		return 3
	}
	same := ""
	if res != nil {
		for _, l := range res.Trace {
			fmt.Println("    " + clip(l, 600))
		}
		if rf.TraceHash != "" {
			same = " (execution trace differs from the recorded one)"
			if traceHash(res.Trace) == rf.TraceHash {
				same = " (execution trace identical to the recorded one)"
			}
		}
	}
	for _, v := range vs {
		if v.Class == rf.Class {
			fmt.Printf("VIOLATION property=%s replay=%s\n  class: %s%s\n  %s\n", rf.Property, p, v.Class, same, v.Msg)
			return 1
		}
	}
	fmt.Printf("not reproduced: %s\n", rf.Class)
	for _, v := range vs {
		fmt.Printf("  other: %s %s\n", v.Class, v.Msg)
	}
	return 0
}
