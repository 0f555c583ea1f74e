package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"vsimrt"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: sim drive|work|replay|shrink|list ...")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "drive":
		driveMain(os.Args[2:])
	case "work":
		workMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "shrink":
		shrinkMain(os.Args[2:])
	case "list":
		for _, k := range sortedKeys(scenarios) {
			fmt.Println(k, scenarios[k].Title)
		}
	default:
		usage()
	}
}

// scratch is the worker's private directory (created by the driver).
var scratch string

// workerInit makes this process a simulation worker.
func workerInit() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	runtime.MemProfileRate = 0
	scratch = os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		d, err := os.MkdirTemp("", "vsim")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			syscall.Exit(96)
		}
		scratch = d
	}
	if os.Chdir(scratch) != nil {
		syscall.Exit(96)
	}
	vsimrt.Worker()
	time.Sleep(30 * time.Millisecond)
}

// stats is what a worker reports about a batch of runs.
type stats struct {
	Runs     int            `json:"runs"`
	Trivial  int            `json:"trivial"`
	Hashes   []uint64       `json:"hashes"`
	Faults   map[string]int `json:"faults"`
	Cover    map[string]int `json:"cover"`
	Switches uint64         `json:"switches"`
	Yields   uint64         `json:"yields"`
	Steps    int64          `json:"steps"`
	SimNanos int64          `json:"simnanos"`
	Samples  []string       `json:"samples"`
}

const raceBase = uint64(1) << 32

// run executes one run and adds race-detector reports to its violations.
func runOne(spec RunSpec, keep bool) (Result, *Ctx) {
	before := raceErrors()
	res, c := Execute(spec, keep || raceBuild)
	if raceErrors() > before {
		for _, v := range newRaces() {
			res.Viol = append(res.Viol, v)
			res.Trace = append(res.Trace, "VIOLATION "+v.Class)
		}
	}
	return res, c
}

var raceLogPos int64

// newRaces parses what the race detector reported since the last call.
func newRaces() []Violation {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return nil
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil || int64(len(b)) <= raceLogPos {
		return nil
	}
	txt := string(b[raceLogPos:])
	raceLogPos = int64(len(b))
	var res []Violation
	seen := map[string]bool{}
	for _, blk := range strings.Split(txt, "WARNING: DATA RACE")[1:] {
		v := parseRace(blk)
		if !seen[v.Class] {
			seen[v.Class] = true
			res = append(res, v)
		}
	}
	return res
}

// parseRace names a race by the two functions whose accesses conflict.
func parseRace(blk string) Violation {
	var tops []string
	var detail []string
	lines := strings.Split(blk, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if !(strings.Contains(l, " at 0x") && strings.Contains(l, " by ")) {
			continue
		}
		top := ""
		var fr []string
		for i++; i+1 < len(lines) && strings.HasPrefix(lines[i], "  "); i += 2 {
			f := strings.TrimSpace(lines[i])
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			fr = append(fr, f)
			if top == "" && !stdFrame(f) {
				top = f
			}
		}
		if top == "" && len(fr) > 0 {
			top = fr[0]
		}
		tops = append(tops, shortFunc(top))
		if len(fr) > 4 {
			fr = fr[:4]
		}
		detail = append(detail, strings.TrimSpace(l[:strings.Index(l, " at 0x")])+" in "+strings.Join(fr, " < "))
	}
	if len(tops) == 2 && tops[0] > tops[1] {
		tops[0], tops[1] = tops[1], tops[0]
	}
	return Violation{Class: "race:" + strings.Join(tops, "|"), Msg: "data race: " + strings.Join(detail, " / ")}
}

func stdFrame(f string) bool {
	i := strings.Index(f, "/")
	if i < 0 {
		i = strings.Index(f, ".")
		if i >= 0 && f[:i] == "main" {
			return false
		}
		return true
	}
	return !strings.Contains(f[:i], ".")
}

func shortFunc(f string) string {
	f = strings.TrimPrefix(f, "github.com/spdx/tools-golang/")
	f = strings.TrimPrefix(f, "github.com/")
	return f
}

func workMain(args []string) {
	fl := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	base := fl.Uint64("base", 1, "")
	from := fl.Uint64("from", 0, "")
	to := fl.Uint64("to", 0, "")
	stride := fl.Uint64("stride", 1, "")
	deadline := fl.Int64("deadline", 0, "")
	verbose := fl.Bool("v", false, "")
	fl.Parse(args)
	if scenarios[*prop] == nil {
		fmt.Fprintln(os.Stderr, "no scenario", *prop)
		os.Exit(96)
	}
	workerInit()
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	st := stats{Faults: map[string]int{}, Cover: map[string]int{}}
	flush := func() {
		st.Yields = vsimrt.Yields()
		st.SimNanos = vsimrt.SimNanos()
		vsimrt.ResetStats()
		fmt.Fprintf(out, "S %s\n", js(st))
		out.Flush()
		st = stats{Faults: map[string]int{}, Cover: map[string]int{}}
	}
	k := 0
	for i := *from; i < *to; i += *stride {
		if *deadline > 0 && time.Now().Unix() >= *deadline {
			break
		}
		idx := i
		if raceBuild {
			idx += raceBase
		}
		fmt.Fprintf(out, "B %d\n", i)
		out.Flush()
		spec := RunSpec{Prop: *prop, Index: idx, Seed: seedOf(*base, *prop, idx), Tier: *tier}
		res, _ := runOne(spec, *verbose)
		st.Runs++
		st.Steps += res.Steps
		st.Switches += res.Switches
		if res.Trivial {
			st.Trivial++
		} else {
			st.Hashes = append(st.Hashes, res.Hash)
		}
		for f, n := range res.Faults {
			st.Faults[f] += n
		}
		for f, n := range res.Cover {
			st.Cover[f] += n
		}
		if res.Sample != "" && len(st.Samples) < 1 {
			st.Samples = append(st.Samples, res.Sample)
		}
		if *verbose {
			fmt.Fprintf(out, "R %d %x %x trivial=%v steps=%d viol=%d %s\n", i, spec.Seed, res.Hash, res.Trivial, res.Steps, len(res.Viol), res.Sample)
			for _, l := range res.Trace {
				fmt.Fprintf(out, "    %s\n", l)
			}
		} else {
			fmt.Fprintf(out, "H %d %x\n", i, res.Hash)
		}
		if len(res.Viol) > 0 {
			fmt.Fprintf(out, "V %s\n", js(res))
			out.Flush()
		}
		k++
		if k%16 == 0 {
			runtime.GC()
		}
		if k%100 == 0 {
			flush()
		}
	}
	flush()
}

// ReplayFile is one recorded violation.
type ReplayFile struct {
	Property  string              `json:"property"`
	Class     string              `json:"class"`
	Message   string              `json:"message"`
	Binary    string              `json:"binary"` // plain or race
	Seed      uint64              `json:"seed"`
	Tier      string              `json:"tier"`
	Index     uint64              `json:"index"`
	FromSeed  bool                `json:"from_seed,omitempty"` // replay the seed, not the tapes
	History   []uint64            `json:"history,omitempty"`   // runs (by index) executed before in the same process
	Base      uint64              `json:"base"`
	Tapes     map[string][]uint32 `json:"tapes"`
	TraceHash string              `json:"trace_hash"`
	Trace     []string            `json:"trace"`
	Minimised bool                `json:"minimised"`
	Death     bool                `json:"death,omitempty"` // the run ends the process
}

func traceHash(tr []string) string {
	return fmt.Sprintf("%016x", vsimrt.Hash64(strings.Join(tr, "\n")))
}

func (f *ReplayFile) spec() RunSpec {
	return RunSpec{Prop: f.Property, Index: f.Index, Seed: f.Seed, Tier: f.Tier, Tapes: f.Tapes, Replay: !f.FromSeed}
}

// replayMain re-executes a recorded run in this process and prints its result.
func replayMain(args []string) {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fl.String("file", "", "")
	dump := fl.String("dump", "", "")
	fl.Parse(args)
	f, err := readReplay(*file)
	if err != nil || scenarios[f.Property] == nil {
		fmt.Fprintln(os.Stderr, "bad replay file:", err)
		os.Exit(96)
	}
	workerInit()
	for _, i := range f.History {
		runOne(RunSpec{Prop: f.Property, Index: i, Seed: seedOf(f.Base, f.Property, i), Tier: f.Tier}, false)
	}
	if *dump != "" {
		fd, err := syscall.Open(*dump, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0644)
		if err != nil {
			os.Exit(96)
		}
		vsimrt.DumpFd = fd
	}
	res, _ := runOne(f.spec(), true)
	fmt.Printf("V %s\n", js(res))
}

func readReplay(p string) (*ReplayFile, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return &ReplayFile{}, err
	}
	f := &ReplayFile{}
	err = json.Unmarshal(b, f)
	return f, err
}

// shrinkMain minimises a recorded violation inside one process.
func shrinkMain(args []string) {
	fl := flag.NewFlagSet("shrink", flag.ExitOnError)
	file := fl.String("file", "", "")
	out := fl.String("out", "", "")
	secs := fl.Int("secs", 15, "")
	fl.Parse(args)
	f, err := readReplay(*file)
	if err != nil {
		os.Exit(96)
	}
	workerInit()
	n := 0
	test := func(t map[string][]uint32) (map[string][]uint32, bool) {
		n++
		if n%16 == 0 {
			runtime.GC()
		}
		s := f.spec()
		s.Tapes, s.Replay = t, true
		res, _ := runOne(s, true)
		for _, v := range res.Viol {
			if v.Class == f.Class && matchKnown(f.Property, v) == nil {
				return res.Tapes, true
			}
		}
		return nil, false
	}
	save := func(t map[string][]uint32) {
		g := *f
		g.Tapes, g.FromSeed, g.Minimised = t, false, true
		b, _ := json.Marshal(g)
		os.WriteFile(*out+".tmp", b, 0644)
		os.Rename(*out+".tmp", *out)
	}
	shrink(f.Tapes, test, save, time.Now().Add(time.Duration(*secs)*time.Second))
}
